// Recorded negative-cycle searches (C11) and parametric searches (C12).
#include "graphs.hpp"
#include <netoptim/min_cycle_ratio.hpp>
#include <netoptim/neg_cycle.hpp>
#include <py2cpp/fractions.hpp>
#include <py2cpp/py2cpp.hpp>

using vp::Ev;
using Fr = fun::Fraction<int>;
using Fl = fun::Fraction<long>;

static std::string show(double x) { return Ev::q(x); }
static std::string show(int x) { return std::to_string(x); }
static std::string hex(long long x)
{
    char b[32];
    std::snprintf(b, sizeof b, "%s%llx", x < 0 ? "-" : "", x < 0 ? 0ull - (unsigned long long)x : (unsigned long long)x);
    return b;
}
template <typename Z>
static std::string show(const fun::Fraction<Z>& x)
{
    return "\"" + hex(x.numerator()) + "/" + hex(x.denominator()) + "\"";
}
template <typename C>
static std::string showall(C& d, size_t n)
{
    std::string r = "[";
    for (size_t i = 0; i != n; ++i)
        r += (i ? "," : "") + show(d[i]);
    return r + "]";
}
template <typename T>
struct make
{
    static T of(double x) { return T(x); }
};
template <typename Z>
struct make<fun::Fraction<Z>>
{
    static fun::Fraction<Z> of(double x)
    {
        Z d = 1;
        while (x != std::floor(x))
        {
            x *= 2;
            d *= 2;
        }
        return fun::Fraction<Z>(Z(x), d);
    }
};

struct Query
{
    std::vector<double> w, d; // no d: the potentials the last search left
    int u = -1, v = -1;       // add this edge first
};

// potentials as a vector, or as a dictionary filled for every node
template <typename T>
struct Vec
{
    using C = std::vector<T>;
    static C of(const std::vector<double>& d)
    {
        C r;
        for (double x : d)
            r.push_back(make<T>::of(x));
        return r;
    }
};
template <typename T>
struct Dict
{
    using C = py::dict<size_t, T>;
    static C of(const std::vector<double>& d)
    {
        C r;
        for (size_t i = 0; i != d.size(); ++i)
            r.insert({i, make<T>::of(d[i])});
        return r;
    }
};

template <typename T>
static T& at(std::vector<T>& d, size_t i)
{
    return d[i];
}
template <typename T>
static T& at(py::dict<size_t, T>& d, size_t i)
{
    return d.find(i)->second;
}

template <typename G, typename T, typename D>
static void searches(vp::Net net, const std::vector<Query>& qs)
{
    auto g = net.build<G>();
    Ev("Begin").i("n", net.n).raw("edges", net.json()).emit();
    vp::guarded(30, [&] {
        negCycleFinder<xn::grAdaptor<G>> finder(g);
        auto d = D::of(std::vector<double>((size_t)net.n, 0.));
        for (auto& q : qs)
        {
            if (q.u >= 0)
            {
                boost::add_edge((size_t)q.u, (size_t)q.v, boost::property<boost::edge_id_tag_t, size_t>(net.e.size()), g);
                net.e.emplace_back(q.u, q.v);
                Ev("Add").i("u", q.u + 1).i("v", q.v + 1).emit();
            }
            std::vector<T> w = Vec<T>::of(q.w);
            if (!q.d.empty())
            {
                auto e = Vec<T>::of(q.d);
                for (size_t i = 0; i != (size_t)net.n; ++i)
                    at(d, i) = e[i];
            }
            long calls = 0;
            const long most = 40L * (net.n + 3) * (long)(net.e.size() + 1);
            auto weight = [&](const auto& e) -> T
            {
                if (++calls > most)
                    throw vp::Overrun();
                return w[boost::get(boost::id_tag, g, e)];
            };
            const auto c = finder.find_neg_cycle(d, weight);
            std::string sd = "[";
            for (size_t i = 0; i != (size_t)net.n; ++i)
                sd += (i ? "," : "") + show(at(d, i));
            Ev("Find").raw("w", showall(w, w.size())).raw("d", sd + "]").ivec("cycle", vp::ids(g, c)).emit();
        }
    });
}

static void dispatch(int k, const vp::Net& g, const std::vector<Query>& q)
{
    switch (k % 8)
    {
    case 0: return searches<vp::graph_t, int, Vec<int>>(g, q);
    case 1: return searches<vp::graph_t, double, Vec<double>>(g, q);
    case 2: return searches<vp::graph_t, Fr, Vec<Fr>>(g, q);
    case 3: return searches<vp::graph_t, int, Dict<int>>(g, q);
    case 4: return searches<vp::graph_t, double, Dict<double>>(g, q);
    case 5: return searches<vp::lgraph_t, int, Vec<int>>(g, q);
    case 6: return searches<vp::lgraph_t, double, Dict<double>>(g, q);
    default: return searches<vp::lgraph_t, Fr, Vec<Fr>>(g, q);
    }
}

static std::vector<double> some(vp::Rng& R, size_t m, int span, bool dyadic, int bias)
{
    std::vector<double> w(m);
    for (auto& x : w)
    {
        x = R.range(-span, span) + bias;
        if (dyadic && R.chance(.5))
            x += R.range(0, 7) / 8.;
    }
    return w;
}

static void cycles(const vp::Args& a)
{
    int k = 0;
    for (auto& t : a.scenarios)
    {
        vp::Cur c(t);
        auto g = vp::net(c);
        Query q;
        q.w = vp::nums(c);
        q.d = vp::nums(c);
        ++k;
        std::vector<Query> qs {q};
        if (k % 2) // the same finder once more, from the potentials left behind, weights turned round
        {
            Query r;
            r.w = q.w;
            for (auto& x : r.w)
                x = -x;
            qs.push_back(r);
            qs.push_back(q);
        }
        dispatch(k, g, qs);
    }
    vp::Rng R(a.seed);
    const int runs = a.thorough ? 4000 : 500;
    for (int r = 0; r < runs; ++r)
    {
        const int n = r % 25 == 24 ? R.range(10, 40) : R.range(1, a.thorough ? 14 : 9);
        const int m = R.range(0, 3 * n + 2);
        auto g = vp::random_net(R, n, m);
        const int kind = R.upto(8);
        const bool frac = kind == 2 || kind == 7, real = kind == 1 || kind == 4 || kind == 6;
        std::vector<Query> qs;
        const int span = R.pick(std::vector<int> {1, 3, 20, frac ? 20 : r % 7 == 6 ? 10000000 : 1000}), nq = R.range(1, 6);
        int bias = R.range(-span / 3, span);
        size_t mm = g.e.size();
        for (int i = 0; i < nq; ++i)
        {
            Query q;
            if (R.chance(.2))
            {
                q.u = R.upto(n);
                q.v = R.upto(n);
                ++mm;
            }
            q.w = some(R, mm, span, frac || real, bias);
            if (!qs.empty() && R.chance(.3)) // change one weight only
            {
                q.w = qs.back().w;
                q.w.resize(mm, 1.);
                if (mm)
                    q.w[(size_t)R.upto((int)mm)] -= R.range(-3, 6);
            }
            if (R.chance(.3)) // zero-weight cycles: differences of potentials
            {
                auto p = some(R, (size_t)n, span, frac || real, 0);
                auto ends = g.e;
                for (auto& b : qs)
                    if (b.u >= 0)
                        ends.emplace_back(b.u, b.v);
                if (q.u >= 0)
                    ends.emplace_back(q.u, q.v);
                for (size_t j = 0; j != mm; ++j)
                    q.w[j] = p[(size_t)ends[j].second] - p[(size_t)ends[j].first] + (R.chance(.2) ? R.range(-1, 2) / (frac || real ? 8. : 1.) : 0.);
            }
            if (i == 0 || R.chance(.4))
                q.d = some(R, (size_t)n, R.pick(std::vector<int> {0, 2, 100}), frac || real, 0);
            qs.push_back(q);
            bias = R.range(-span / 3, span);
        }
        dispatch(kind, g, qs);
    }
}

// --------------------------------------------------------------- parametric
struct Solve
{
    std::vector<double> cost, time, d;
    double r0 = 0;
    long limit = -1; // -1: as the default
    std::vector<double> script;
    bool scripted = false;
};

template <typename G, typename T, typename N, typename D, typename M = N> // costs in N, times in M
static void solves(const vp::Net& net, const std::vector<Solve>& ss)
{
    auto g = net.build<G>();
    Ev("Begin").i("n", net.n).raw("edges", net.json()).emit();
    vp::guarded(60, [&] {
        auto d = D::of(std::vector<double>((size_t)net.n, 0.));
        for (auto& s : ss)
        {
            std::vector<N> cost;
            std::vector<M> time;
            for (double x : s.cost)
                cost.push_back(make<N>::of(x));
            for (double x : s.time)
                time.push_back(make<M>::of(x));
            if (!s.d.empty())
            {
                auto e = Vec<T>::of(s.d);
                for (size_t i = 0; i != (size_t)net.n; ++i)
                    at(d, i) = e[i];
            }
            long calls = 0;
            auto idx = [&](const auto& e)
            {
                if (++calls > 2000000)
                    throw vp::Overrun();
                return boost::get(boost::id_tag, g, e);
            };
            auto get_cost = [&](const auto& e) -> N { return cost[idx(e)]; };
            auto get_time = [&](const auto& e) -> M { return time[idx(e)]; };
            T r = make<T>::of(s.r0);
            Ev(s.scripted ? "Param" : "Solve").raw("cost", showall(cost, cost.size())).raw("time", showall(time, time.size()))
                .raw("r0", show(r)).b("exact", !std::is_floating_point<T>::value)
                .i("limit", s.limit < 0 ? 1000 : s.limit).emit();
            std::vector<int> cyc;
            if (s.scripted)
            {
                size_t k = 0;
                auto weight = [&](const T& x, const auto& e) -> T { return get_cost(e) - x * get_time(e); };
                auto cancel = [&](const auto& c) -> T
                {
                    auto v = k < s.script.size() ? make<T>::of(s.script[k]) : T(r);
                    if (++k > 60)
                        throw vp::Overrun();
                    Ev("Offer").ivec("cycle", vp::ids(g, c)).raw("x", show(v)).emit();
                    return v;
                };
                const auto c = s.limit < 0 ? max_parametric(g, r, weight, cancel, d) : max_parametric(g, r, weight, cancel, d, (size_t)s.limit);
                cyc = vp::ids(g, c);
            }
            else
            {
                const auto c = s.limit < 0 ? min_cycle_ratio(g, r, get_cost, get_time, d) : min_cycle_ratio(g, r, get_cost, get_time, d, (size_t)s.limit);
                cyc = vp::ids(g, c);
            }
            Ev("Result").raw("r", show(r)).ivec("cycle", cyc).emit();
        }
    });
}

static void ratio_dispatch(int k, const vp::Net& g, const std::vector<Solve>& s)
{
    switch (k % 9)
    {
    case 6: return solves<vp::graph_t, double, int, Vec<double>, double>(g, s);
    case 7: return solves<vp::lgraph_t, double, double, Dict<double>, int>(g, s);
    case 8: return solves<vp::graph_t, Fr, Fr, Vec<Fr>, int>(g, s);
    case 0: return solves<vp::graph_t, Fr, int, Vec<Fr>>(g, s);
    case 1: return solves<vp::graph_t, double, int, Vec<double>>(g, s);
    case 2: return solves<vp::graph_t, double, double, Vec<double>>(g, s);
    case 3: return solves<vp::lgraph_t, Fr, int, Vec<Fr>>(g, s);
    case 4: return solves<vp::lgraph_t, double, double, Dict<double>>(g, s);
    default: return solves<vp::lgraph_t, double, int, Dict<double>>(g, s);
    }
}

static void ratio(const vp::Args& a)
{
    int k = 0;
    for (auto& t : a.scenarios)
    {
        vp::Cur c(t);
        auto g = vp::net(c);
        Solve s;
        s.cost = vp::nums(c);
        s.time = vp::nums(c);
        const auto q = c.s();
        const auto slash = q.find('/');
        s.r0 = slash == std::string::npos ? std::strtod(q.c_str(), nullptr)
                                          : std::strtod(q.c_str(), nullptr) / std::strtod(q.c_str() + slash + 1, nullptr);
        s.limit = (long)c.i();
        s.script = vp::nums(c);
        s.scripted = !s.script.empty();
        if (s.limit == 99)
            s.limit = -1;
        ratio_dispatch(++k, g, {s});
    }
    vp::Rng R(a.seed + 17);
    const int runs = a.thorough ? 4000 : 500;
    // a staircase: cycles side by side, each better than the one found before it,
    // so that the search takes as many rounds as there are cycles
    for (int r = 0; r < runs / 20; ++r)
    {
        const int kind = R.upto(9), rungs = R.range(3, kind == 0 || kind == 3 || kind == 8 ? 8 : 30);
        vp::Net g;
        Solve s;
        auto edge = [&](int u, int v, double cost, double time) {
            g.e.emplace_back(u, v);
            s.cost.push_back(cost);
            s.time.push_back(time);
        };
        const int drop = R.range(1, 4), base = R.range(-3 * rungs, 2 * rungs);
        for (int k = 0; k < rungs; ++k)
        {
            const int len = R.range(1, 3), from = g.n;
            g.n += len;
            for (int i = 0; i < len; ++i)
                edge(from + i, from + (i + 1) % len, base + drop * (rungs - k) + (i == 0 ? -1 : i == 1 ? 1 : 0), 1);
            if (k && R.chance(.7))
                edge(from - 1, from, 1000, R.range(1, 3));
            if (k && R.chance(.3))
                edge(from, from - 1, 1000, 1);
        }
        s.r0 = 4000;
        s.limit = R.chance(.2) ? R.range(2, rungs) : R.chance(.5) ? 1000 : -1;
        s.d.assign((size_t)g.n, 0.);
        ratio_dispatch(kind, g, {s});
    }
    for (int r = 0; r < runs; ++r)
    {
        const int kind = R.upto(9);
        const bool frac = kind == 0 || kind == 3 || kind == 8;
        const int n = r % 25 == 24 && !frac ? R.range(9, 30) : R.range(1, frac ? 4 : 8);
        auto g = vp::random_net(R, n, R.range(1, 3 * n + 1));
        std::vector<Solve> ss;
        const int ns = R.range(1, 4);
        for (int i = 0; i < ns; ++i)
        {
            Solve s;
            const int span = frac ? R.pick(std::vector<int> {1, 3, 9}) : R.pick(std::vector<int> {1, 5, 30, 500});
            s.cost = some(R, g.e.size(), span, kind == 2 || kind == 4 || kind == 7, R.range(-span, span));
            if (kind == 8 && span < 4)
                for (auto& x : s.cost)
                    x = x * .5;
            const int tmax = frac ? 2 : R.range(1, 9);
            for (size_t j = 0; j != g.e.size(); ++j)
                s.time.push_back(R.range(1, tmax));
            if (i > 0 && R.chance(.3))
                s.cost = ss.back().cost, s.time = ss.back().time;
            if ((kind == 2 || kind == 6) && R.chance(.5))
                for (auto& x : s.time)
                    x = x * .25;
            s.r0 = R.chance(.7) ? 4. * span + 1 : R.range(-span, span);
            s.limit = R.chance(.15) ? R.range(0, 4) : R.chance(.5) ? 1000 : -1;
            if (i == 0 || R.chance(.3))
                s.d = some(R, (size_t)n, R.pick(std::vector<int> {0, 2, frac ? 5 : 50}), !frac, 0);
            if (R.chance(.35))
            {
                s.scripted = true;
                double x = s.r0;
                const int len = R.range(0, 6);
                for (int j = 0; j < len; ++j)
                {
                    const int c = R.upto(10);
                    x = c < 7 ? x - R.range(1, 4) : c == 7 ? x : c == 8 ? x + 1 : x - 0.5;
                    s.script.push_back(x);
                }
            }
            ss.push_back(s);
        }
        ratio_dispatch(kind, g, ss);
    }
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    if (a.part == "cycles")
        cycles(a);
    else
        ratio(a);
    return 0;
}
