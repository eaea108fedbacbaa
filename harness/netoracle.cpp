// Recorded queries of the network oracles (C14).
#include "graphs.hpp"
#include <ellcpp/oracles/cycle_ratio_oracle.hpp>
#include <ellcpp/oracles/network_oracle.hpp>
#include <ellcpp/oracles/optscaling_oracle.hpp>
#include <py2cpp/py2cpp.hpp>
#include <xtensor/xarray.hpp>

using vp::Ev;
using Arr = xt::xarray<double, xt::layout_type::row_major>;
using Vec = std::vector<double>;
using G = xn::grAdaptor<vp::graph_t>;

struct Step
{
    char what = 'Q'; // Q query, L level, P potentials, R the best-so-far value is set anew
    Vec x;
    double t = 0;
};
struct Case
{
    std::string form;
    vp::Net net;
    Vec cost, lev;
    std::vector<Vec> slope, samples;
    std::vector<Step> steps;
    double best = 0;
    int dict = 0; // potentials in a dictionary
    size_t dim() const { return form == "plain" ? slope.empty() ? 1 : slope[0].size() : form == "ratio" ? 1 : 2; }
};

static double weight(const Case& c, size_t i, const Vec& x, double level)
{
    if (c.form == "plain")
    {
        double w = c.cost[i] - level * c.lev[i];
        for (size_t j = 0; j != x.size(); ++j)
            w += c.slope[i][j] * x[j];
        return w;
    }
    if (c.form == "ratio")
        return c.cost[i] - c.slope[i][0] * x[0];
    return c.net.e[i].first < c.net.e[i].second ? x[0] - c.cost[i] : c.cost[i] - x[1];
}

// only to choose sample points; the specification decides for itself
static bool looks_fine(const Case& c, const Vec& x, double level)
{
    Vec d((size_t)c.net.n, 0.);
    for (int k = 0; k <= c.net.n; ++k)
    {
        bool any = false;
        for (size_t i = 0; i != c.net.e.size(); ++i)
        {
            const double v = d[(size_t)c.net.e[i].first] + weight(c, i, x, level);
            if (d[(size_t)c.net.e[i].second] > v)
            {
                d[(size_t)c.net.e[i].second] = v;
                any = true;
            }
        }
        if (!any)
            return true;
    }
    return false;
}

static std::string vecs(const std::vector<Vec>& v)
{
    std::string r = "[";
    for (size_t i = 0; i != v.size(); ++i)
        r += (i ? "," : "") + Ev::list(v[i]);
    return r + "]";
}

static void begin(const Case& c)
{
    Ev("Begin").str("form", c.form).i("n", c.net.n).raw("edges", c.net.json()).vec("cost", c.cost).raw("slope", vecs(c.slope))
        .vec("lev", c.lev).raw("samples", vecs(c.samples)).emit();
}

template <typename U>
static void stir(U& u, size_t n, double t)
{
    vp::Rng R((uint64_t)std::llabs((long long)(t * 64)) + 7);
    for (size_t i = 0; i != n; ++i)
        u[i] = R.range(-400, 400) / 8.;
    Ev("Pot").emit();
}

static Arr arr(const Vec& x)
{
    Arr r = xt::zeros<double>({x.size()});
    for (size_t i = 0; i != x.size(); ++i)
        r(i) = x[i];
    return r;
}
static Vec vec(double g) { return {g}; }
static Vec vec(const Arr& g) { return Vec(g.begin(), g.end()); }

// the plain form: affine weights
template <typename X>
struct H
{
    const Case& c;
    const G& g;
    double level = 0;
    long* calls;
    static Vec of(double x) { return {x}; }
    static Vec of(const Arr& x) { return Vec(x.begin(), x.end()); }
    static void make(double& r, const Vec& v) { r = v[0]; }
    static void make(Arr& r, const Vec& v) { r = arr(v); }
    template <typename E>
    double eval(const E& e, const X& x) const
    {
        if (++*calls > 500000)
            throw vp::Overrun();
        return weight(c, boost::get(boost::id_tag, g, e), of(x), level);
    }
    template <typename E>
    X grad(const E& e, const X&) const
    {
        X r;
        make(r, c.slope[boost::get(boost::id_tag, g, e)]);
        return r;
    }
    void update(double t) { level = t; }
};

template <typename X, typename U>
static void plain(const Case& c)
{
    auto g = c.net.build<vp::graph_t>();
    U u;
    for (size_t i = 0; i != (size_t)c.net.n; ++i)
        u[i] = 0.;
    long calls = 0;
    network_oracle<G, U, H<X>> O(g, u, H<X> {c, g, 0., &calls});
    for (auto& s : c.steps)
    {
        if (s.what == 'P')
            stir(u, (size_t)c.net.n, s.t);
        else if (s.what == 'L')
        {
            O.update(s.t);
            Ev("Level").num("t", s.t).emit();
        }
        else if (s.what == 'Q')
        {
            X x;
            H<X>::make(x, s.x);
            const auto cut = O(x);
            Ev e("Query");
            e.vec("x", s.x).b("has", bool(cut));
            if (cut)
                e.vec("g", vec(std::get<0>(*cut))).num("f", std::get<1>(*cut));
            e.emit();
        }
    }
}

template <typename O, typename X, typename U>
static void objective(const Case& c, O& oracle, U& u)
{
    double t = c.best;
    for (auto& s : c.steps)
    {
        if (s.what == 'P')
            stir(u, (size_t)c.net.n, s.t);
        else if (s.what == 'R')
            t = s.t;
        else if (s.what == 'Q')
        {
            X x;
            H<X>::make(x, s.x);
            const double t0 = t;
            const auto r = oracle(x, t);
            const auto& cut = std::get<0>(r);
            Ev("Query").vec("x", s.x).num("t0", t0).num("t1", t).b("shrunk", std::get<1>(r)).vec("g", vec(std::get<0>(cut)))
                .num("f", std::get<1>(cut)).emit();
        }
    }
}

template <typename U>
static void form(const Case& c)
{
    auto g = c.net.build<vp::graph_t>();
    U u;
    for (size_t i = 0; i != (size_t)c.net.n; ++i)
        u[i] = 0.;
    long calls = 0;
    auto id = [&](const auto& e)
    {
        if (++calls > 500000)
            throw vp::Overrun();
        return boost::get(boost::id_tag, g, e);
    };
    auto cost = [&](const auto& e) -> double { return c.cost[id(e)]; };
    auto time = [&](const auto& e) -> double { return c.slope[id(e)][0]; };
    if (c.form == "ratio")
    {
        cycle_ratio_oracle<G, U, decltype(cost), decltype(time)> O(g, u, cost, time);
        objective<decltype(O), double>(c, O, u);
    }
    else
    {
        optscaling_oracle<G, U, decltype(cost)> O(g, u, cost);
        objective<decltype(O), Arr>(c, O, u);
    }
}

struct Grown : std::vector<double> // a vector that a fresh index may be written to
{
    Grown() : std::vector<double>(64, 0.) { }
};

static void run(const Case& c, int k)
{
    begin(c);
    vp::guarded(30, [&] {
        if (c.form == "plain")
        {
            if (c.dim() == 1 && k % 2)
                c.dict ? plain<double, py::dict<size_t, double>>(c) : plain<double, Grown>(c);
            else
                c.dict ? plain<Arr, py::dict<size_t, double>>(c) : plain<Arr, Grown>(c);
        }
        else
            c.dict ? form<py::dict<size_t, double>>(c) : form<Grown>(c);
    });
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    int k = 0;
    for (auto& t : a.scenarios)
    {
        vp::Cur r(t);
        Case c;
        c.form = r.s();
        c.net = vp::net(r);
        c.cost = vp::nums(r);
        for (auto m = r.i(); m > 0; --m)
            c.slope.push_back(vp::nums(r));
        c.lev = vp::nums(r);
        std::vector<Vec> pts;
        for (auto m = r.i(); m > 0; --m)
            pts.push_back(vp::nums(r));
        c.samples = pts;
        for (auto m = r.i(); m > 0; --m)
        {
            Step s;
            r.i();
            s.what = r.s()[0];
            const auto v = r.i();
            if (s.what == 'Q')
                s.x = pts[(size_t)v - 1];
            else
                s.t = (double)v;
            c.steps.push_back(s);
        }
        c.best = c.form == "ratio" ? -1000 : 1000;
        c.dict = ++k % 3 == 0;
        run(c, k);
    }
    vp::Rng R(a.seed + 99);
    const int runs = a.thorough ? 2400 : 300;
    for (int q = 0; q < runs; ++q)
    {
        Case c;
        c.form = q % 3 == 0 ? "plain" : q % 3 == 1 ? "ratio" : "scale";
        const int n = q % 31 == 30 ? R.range(10, 16) : R.range(2, a.thorough ? 9 : 6);
        c.net = vp::random_net(R, n, R.range(n, 3 * n), c.form != "scale");
        const size_t m = c.net.e.size();
        const size_t dim = c.form == "plain" ? (size_t)R.range(1, 3) : c.form == "ratio" ? 1 : 2;
        const int span = R.pick(std::vector<int> {2, 10, 100});
        const bool pos = R.chance(.7);
        for (size_t i = 0; i != m; ++i)
        {
            c.cost.push_back((R.range(-span, span) + (c.form == "plain" && pos ? span / 2 : 0)) / R.pick(std::vector<double> {1, 4}));
            c.lev.push_back(R.range(-1, 2));
            Vec s;
            for (size_t j = 0; j != dim; ++j)
                s.push_back(c.form == "ratio" ? R.range(pos ? 1 : -1, 4) : R.range(-2, 2));
            c.slope.push_back(s);
        }
        auto point = [&]
        {
            Vec x;
            for (size_t j = 0; j != dim; ++j)
                x.push_back(R.range(-64 * span, 64 * span) / 32.);
            if (c.form == "scale" && R.chance(.7) && x[0] < x[1])
                std::swap(x[0], x[1]);
            return x;
        };
        // samples: at random, and pressed against the boundary
        Vec in;
        double level = 0;
        for (int j = 0; j < 40; ++j)
        {
            auto x = point();
            if (looks_fine(c, x, level))
                in = x;
            c.samples.push_back(x);
        }
        if (!in.empty())
            for (int j = 0; j < 20; ++j)
            {
                auto lo = in, hi = point();
                for (int b = 0; b < 24; ++b)
                {
                    Vec mid;
                    for (size_t d = 0; d != dim; ++d)
                        mid.push_back((lo[d] + hi[d]) / 2);
                    (looks_fine(c, mid, level) ? lo : hi) = mid;
                }
                c.samples.push_back(lo);
            }
        const int ns = R.range(1, 9);
        for (int j = 0; j < ns; ++j)
        {
            Step s;
            if (R.chance(.25))
            {
                s.what = c.form == "plain" && R.chance(.7) ? 'L' : 'P';
                s.t = R.range(-8, 8) / 4.;
                c.steps.push_back(s);
            }
            else if (c.form != "plain" && R.chance(.1))
            {
                s.what = 'R';
                s.t = R.range(-32 * span, 32 * span) / 16.;
                c.steps.push_back(s);
            }
            s.what = 'Q';
            s.x = R.chance(.5) ? R.pick(c.samples) : point();
            if (j && R.chance(.15))
                s.x = c.steps.back().x.empty() ? s.x : c.steps.back().x; // the same again
            if (c.form != "plain" && R.chance(.15)) // hardly better than the best so far, or hardly not
            {
                Step b;
                b.what = 'R';
                b.t = (c.form == "ratio" ? s.x[0] : s.x[0] - s.x[1]) + (R.chance(.5) ? 1 : -1) * std::ldexp(1., -R.range(4, 34));
                c.steps.push_back(b);
            }
            c.steps.push_back(s);
        }
        c.best = c.form == "ratio" ? -1000 : 1000;
        if (R.chance(.3))
            c.best = R.range(-32 * span, 32 * span) / 16.;
        c.dict = R.chance(.3);
        run(c, q);
    }
    return 0;
}
