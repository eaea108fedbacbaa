// Complete solves: the real drivers on the real search spaces, over small
// convex problems that the trace spells out in full (C21).
#include "common.hpp"
#include "probe.hpp"
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell1d.hpp>
#include <functional>
#include <memory>
#include <optional>

using vp::Ev;
using Arr = xt::xarray<double, xt::layout_type::row_major>;
using Vec = std::vector<double>;

static const char* name(CUTStatus s)
{
    return s == CUTStatus::success ? "success" : s == CUTStatus::nosoln ? "nosoln"
        : s == CUTStatus::smallenough                                   ? "smallenough"
                                                                        : "noeffect";
}

struct Con
{
    std::string t; // lin: a.x <= hi, slab: lo <= a.x <= hi, ball: |x-a|^2 <= hi
    Vec a;
    double lo, hi;
};
struct Problem
{
    int n;
    std::vector<Con> cons;
    Vec c, p;
    double q;
    std::vector<Vec> wit;
};
static double dot(const Vec& a, const Vec& b)
{
    double r = 0;
    for (size_t i = 0; i != a.size(); ++i)
        r += a[i] * b[i];
    return r;
}
static Vec minus(const Vec& a, const Vec& b)
{
    Vec r(a);
    for (size_t i = 0; i != a.size(); ++i)
        r[i] -= b[i];
    return r;
}
static double objective(const Problem& P, const Vec& x)
{
    const Vec d = minus(x, P.p);
    return dot(P.c, x) + P.q * dot(d, d);
}
static bool holds(const Con& c, const Vec& x)
{
    if (c.t == "ball")
    {
        const Vec d = minus(x, c.a);
        return dot(d, d) <= c.hi;
    }
    const double v = dot(c.a, x);
    return v <= c.hi && (c.t == "lin" || v >= c.lo);
}
static bool feasible(const Problem& P, const Vec& x)
{
    for (auto& c : P.cons)
        if (!holds(c, x))
            return false;
    return true;
}

// one cut: g.(y - x) + near <= 0 for all y that are let through, and
// 0 <= g.(y - x) + far where there is a far side
struct CutOf
{
    Vec g;
    double near;
    std::optional<double> far;
    bool objective = false;
};
static CutOf cut_of(const Con& c, const Vec& x)
{
    if (c.t == "ball")
    {
        Vec d = minus(x, c.a);
        const double v = dot(d, d) - c.hi;
        for (auto& z : d)
            z *= 2;
        return {d, v, {}};
    }
    const double v = dot(c.a, x);
    if (c.t == "lin")
        return {c.a, v - c.hi, {}};
    if (v > c.hi)
        return {c.a, v - c.hi, v - c.lo};
    Vec m(c.a);
    for (auto& z : m)
        z = -z;
    return {m, c.lo - v, c.hi - v};
}
static Vec slope(const Problem& P, const Vec& x)
{
    Vec g = P.c;
    for (size_t i = 0; i != g.size(); ++i)
        g[i] += 2 * P.q * (x[i] - P.p[i]);
    return g;
}

// ---------------------------------------------------------- the search spaces
static Vec listed(const Arr& x) { return Vec(x.begin(), x.end()); }
static Vec listed(double x) { return Vec {x}; }
static Arr array(const Vec& v)
{
    Arr r = xt::zeros<double>({v.size()});
    for (size_t i = 0; i != v.size(); ++i)
        r(i) = v[i];
    return r;
}
static Arr shape_of(const ell& e) { return vp::shape(e); }
static Arr shape_of(const ell1d& e)
{
    ell1d c(e);
    Arr P = xt::zeros<double>({1, 1});
    P(0, 0) = std::get<1>(c.update(std::make_tuple(1., 1e200)));
    return P;
}
static std::tuple<CUTStatus, double> give(ell& e, const CutOf& c, bool par)
{
    if (par && c.far)
        return e.update(std::make_tuple(array(c.g), Arr {c.near, *c.far}));
    return e.update(std::make_tuple(array(c.g), c.near));
}
static std::tuple<CUTStatus, double> give(ell1d& e, const CutOf& c, bool)
{
    return e.update(std::make_tuple(c.g[0], c.near));
}

struct Flat { };
// what every cut goes through: logs the answer and the space after it
template <typename E>
struct Spy
{
    E e;
    bool par;
    size_t limit = 3000;

    Spy(const E& x, bool p)
        : e(x)
        , par {p}
    {
    }
    auto xc() const { return e.xc(); }
    void set_xc(decltype(std::declval<const E&>().xc()) x) { e.set_xc(x); }
    Spy copy() const
    {
        Spy s(e, par);
        Ev("Copy").vec("x", listed(s.e.xc())).mat("P", shape_of(s.e)).emit();
        return s;
    }
    std::tuple<CUTStatus, double> update(const CutOf& c)
    {
        if (limit-- == 0)
            throw vp::Overrun();
        bool flat = true;
        for (double z : c.g)
            flat = flat && z == 0.;
        if (flat) // exactly at the minimum: there is no direction to cut in
            throw Flat();
        const auto r = give(e, c, par);
        Ev v("Cut");
        v.vec("g", c.g).num("near", c.near);
        if (par && c.far)
            v.num("far", *c.far);
        else
            v.str("far", "none");
        v.b("objective", c.objective).str("verdict", name(std::get<0>(r))).num("tsq", std::get<1>(r)).vec("x", listed(e.xc())).mat("P", shape_of(e)).emit();
        return r;
    }
};

// ---------------------------------------------------------------- the oracles
struct Asker
{
    const Problem& P;
    int pick; // 0: first violated, 1: most violated, 2: in turn
    size_t turn = 0;
    std::optional<CutOf> violated(const Vec& x)
    {
        std::optional<CutOf> r;
        const size_t m = P.cons.size();
        double worst = 0;
        for (size_t k = 0; k != m; ++k)
        {
            const size_t i = pick == 2 ? (k + turn) % m : k;
            if (holds(P.cons[i], x))
                continue;
            auto c = cut_of(P.cons[i], x);
            if (pick == 2)
                turn = i + 1;
            if (pick != 1)
                return c;
            if (!r || c.near > worst)
                worst = c.near, r = c;
        }
        return r;
    }
};
struct FeasOracle : Asker
{
    double level = 0;
    bool leveled = false;
    template <typename X>
    std::optional<CutOf> operator()(const X& xx)
    {
        const Vec x = listed(xx);
        auto c = violated(x);
        if (!c && leveled && objective(P, x) > level)
            c = CutOf {slope(P, x), objective(P, x) - level, {}, true};
        Ev("Ask").vec("x", x).b("yes", !c).emit();
        return c;
    }
    void update(double t)
    {
        level = t;
        leveled = true;
        Ev("Level").num("t", t).emit();
    }
};
struct OptOracle : Asker
{
    template <typename X>
    std::tuple<CutOf, bool> operator()(const X& xx, double& t)
    {
        const Vec x = listed(xx);
        const double t0 = t;
        auto c = violated(x);
        bool shrunk = false;
        if (!c)
        {
            const double v = objective(P, x);
            c = CutOf {slope(P, x), v - t, {}, true};
            if (v < t)
            {
                t = v;
                c->near = 0.;
                shrunk = true;
            }
        }
        Ev("AskFor").vec("x", x).num("t0", t0).num("t", t).b("shrunk", shrunk).vec("at", x).emit();
        return {*c, shrunk};
    }
};
struct GridOracle : Asker
{
    double h;
    template <typename X>
    std::tuple<CutOf, X, bool, bool> operator()(const X& xx, double& t, bool retry)
    {
        const Vec x = listed(xx);
        const double t0 = t;
        Vec y(x);
        for (auto& z : y)
            z = h * std::round(z / h);
        CutOf c;
        bool shrunk = false;
        auto v = violated(x);
        if (v)
            c = *v;
        else if (retry)
            c = CutOf {slope(P, x), objective(P, x) - t, {}, true};
        else if (auto w = violated(y))
        {
            c = *w;
            c.near += dot(c.g, minus(x, y));
            if (c.far)
                *c.far += dot(c.g, minus(x, y));
        }
        else
        {
            const double f = objective(P, y);
            if (f < t)
            {
                t = f;
                shrunk = true;
            }
            c = CutOf {slope(P, y), f - t, {}, true};
            c.near += dot(c.g, minus(x, y));
        }
        Ev("AskFor").vec("x", x).num("t0", t0).num("t", t).b("shrunk", shrunk).vec("at", y).emit();
        X x0 = xx;
        if constexpr (std::is_same_v<X, double>)
            x0 = y[0];
        else
            x0 = array(y);
        return {c, x0, shrunk, !retry};
    }
};

// -------------------------------------------------------------------- running
static std::string vecs(const std::vector<Vec>& v)
{
    std::string r = "[";
    for (size_t i = 0; i != v.size(); ++i)
        r += (i ? "," : "") + Ev::list(v[i]);
    return r + "]";
}
struct Config
{
    std::string how; // feas, dc, q, bs
    bool par, defer;
    int pick;
    double tol;
    unsigned maxit;
};
template <typename E>
static void begin(const Problem& P, const Config& k, const E& e, double t0)
{
    std::string cons = "[";
    for (auto& c : P.cons)
        cons += (cons.size() > 1 ? "," : "") + std::string("{\"t\":\"") + c.t + "\",\"a\":" + Ev::list(c.a) + ",\"lo\":" + Ev::q(c.lo) + ",\"hi\":" + Ev::q(c.hi) + "}";
    Ev("Begin").str("how", k.how).raw("cons", cons + "]").raw("obj", "{\"c\":" + Ev::list(P.c) + ",\"q\":" + Ev::q(P.q) + ",\"p\":" + Ev::list(P.p) + "}")
        .raw("wit", vecs(P.wit)).vec("x", listed(e.xc())).mat("P", shape_of(e)).num("t", t0).num("tol", k.tol).i("maxit", k.maxit).emit();
}
template <typename X>
static std::string point(const X& x, bool some)
{
    return some ? Ev::list(listed(x)) : "[]";
}
static size_t rank(const Arr& x) { return x.dimension() ? x.size() : 0; }
static size_t rank(double) { return 1; }

template <typename E>
static void solve(const Problem& P, const Config& k, const E& e, double t0, double h)
{
    vp::guarded(30, [&] {
        try {
        begin(P, k, e, t0);
        const Options o {k.maxit, k.tol};
        Spy<E> S(e, k.par);
        if (k.how == "feas")
        {
            FeasOracle O {{P, k.pick}};
            const auto r = cutting_plane_feas(O, S, o);
            Ev("Feas").b("feasible", r.feasible).str("status", name(r.status)).emit();
        }
        else if (k.how == "dc")
        {
            OptOracle O {{P, k.pick}};
            double t = t0;
            const auto [x, r] = cutting_plane_dc(O, S, t, o);
            Ev("Best").b("feasible", r.feasible).str("status", name(r.status)).num("t", t).raw("best", point(x, r.feasible && rank(x))).emit();
        }
        else if (k.how == "q")
        {
            GridOracle O {{P, k.pick}, h};
            double t = t0;
            const auto [x, r] = cutting_plane_q(O, S, t, o);
            Ev("Best").b("feasible", r.feasible).str("status", name(r.status)).num("t", t).raw("best", point(x, r.feasible && rank(x))).emit();
        }
        else if constexpr (std::is_same_v<E, ell>)
        {
            FeasOracle O {{P, k.pick}};
            bsearch_adaptor<FeasOracle, Spy<E>> A(O, S, o);
            std::pair<double, double> I {t0 - std::fabs(t0) - 40., t0};
            auto test = [&](double t) {
                const bool y = A(t);
                Ev("Tested").b("yes", y).vec("x", listed(A.x_best())).emit();
                return y;
            };
            const auto r = bsearch(test, I, Options {12, 1e-2});
            Ev("Searched").b("feasible", r.feasible).num("lo", I.first).num("hi", I.second).vec("best", listed(A.x_best())).emit();
        }
        } catch (const Flat&) { }
    });
}

// better points by random descent, and points spread over the space
static void witnesses(vp::Rng& R, Problem& P, const Vec& x0, const Vec& half, int spread, double grid)
{
    auto in = [&](const Vec& x) {
        double s = 0;
        for (size_t i = 0; i != x.size(); ++i)
            s += (x[i] - x0[i]) * (x[i] - x0[i]) / half[i] / half[i];
        return s <= 1;
    };
    auto snap = [&](Vec x) {
        if (grid > 0)
            for (auto& z : x)
                z = grid * std::round(z / grid);
        return x;
    };
    auto random = [&] {
        Vec x(x0);
        do
            for (size_t i = 0; i != x.size(); ++i)
                x[i] = x0[i] + half[i] * R.real(-1, 1);
        while (!in(x));
        return x;
    };
    for (int k = 0; k < spread * 20 && (int)P.wit.size() < spread; ++k)
    {
        const Vec x = snap(random());
        if (in(x) && feasible(P, x))
            P.wit.push_back(x);
    }
    for (int run = 0; run < 3; ++run)
    {
        Vec b;
        for (int k = 0; k < 300 && b.empty(); ++k)
        {
            const Vec x = snap(random());
            if (in(x) && feasible(P, x))
                b = x;
        }
        if (b.empty() && !P.wit.empty())
            b = P.wit[(size_t)R.upto((int)P.wit.size())];
        if (b.empty())
            continue;
        double step = 1;
        for (int k = 0; k < 900; ++k, step *= .985)
        {
            Vec y(b);
            for (size_t i = 0; i != y.size(); ++i)
                y[i] += std::max(step * half[i], grid) * R.real(-1, 1);
            y = snap(y);
            if (in(y) && feasible(P, y) && objective(P, y) < objective(P, b))
            {
                b = y;
                if (k % 60 == 0)
                    P.wit.push_back(y);
            }
        }
        P.wit.push_back(b);
    }
}

static Problem random_problem(vp::Rng& R, int n, const Vec& x0, const Vec& half)
{
    Problem P;
    P.n = n;
    // a point that satisfies most of the constraints, often all
    Vec s(x0);
    for (int i = 0; i < n; ++i)
        s[(size_t)i] += half[(size_t)i] * R.real(-.55, .55);
    const bool solvable = R.chance(.8);
    for (int m = R.range(0, 2 * n); m > 0; --m)
    {
        Con c;
        c.lo = 0;
        c.a.resize((size_t)n);
        const int kind = R.upto(4);
        double len = 0;
        for (int i = 0; i < n; ++i)
        {
            c.a[(size_t)i] = R.chance(.2) ? 0. : R.real(-1, 1) * std::pow(10., R.real(-1, 1));
            len += std::fabs(c.a[(size_t)i]) * half[(size_t)i];
        }
        if (len == 0)
            continue;
        const double room = solvable ? R.real(0.001, .4) : R.real(-.5, .3);
        if (kind == 3)
        {
            c.t = "ball";
            c.a = s;
            double w = 0;
            for (int i = 0; i < n; ++i)
            {
                c.a[(size_t)i] += half[(size_t)i] * R.real(-.5, .5);
                w += std::pow(c.a[(size_t)i] - s[(size_t)i], 2);
            }
            c.hi = w * (1 + std::fabs(room)) * (solvable || R.chance(.5) ? 1 : .3) + 1e-6;
        }
        else
        {
            const double v = dot(c.a, s);
            c.t = kind == 2 ? "slab" : "lin";
            c.hi = v + room * len;
            c.lo = kind == 2 ? c.hi - len * R.real(.02, .6) : 0;
            if (kind == 2 && solvable && c.lo > v)
                c.lo = v - .01 * len;
        }
        P.cons.push_back(c);
    }
    P.c.resize((size_t)n);
    P.p = x0;
    P.q = R.chance(.4) ? R.real(.01, 2) : 0.;
    for (int i = 0; i < n; ++i)
    {
        P.c[(size_t)i] = R.real(-1, 1);
        P.p[(size_t)i] += half[(size_t)i] * R.real(-.8, .8);
    }
    return P;
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    vp::Rng R(a.seed + 21);
    const std::vector<std::string> hows {"dc", "feas", "q", "bs"};
    int k = 0;
    for (auto& t : a.scenarios)
    {
        vp::Cur c(t);
        const double rad = c.d();
        Problem P;
        P.n = 2;
        auto vec = [&] {
            Vec v;
            for (auto m = c.i(); m > 0; --m)
                v.push_back(c.d());
            return v;
        };
        for (auto m = c.i(); m > 0; --m)
        {
            c.i();
            Con q;
            q.t = c.s();
            q.a = vec();
            q.lo = c.d();
            q.hi = c.d();
            P.cons.push_back(q);
        }
        c.i();
        P.c = vec();
        P.q = c.d();
        P.p = vec();
        vec(); // the optimum over the grid: the specification knows
        Arr x0 = xt::zeros<double>({2});
        for (int i = -2 * (int)rad; i <= 2 * rad; ++i)
            for (int j = -2 * (int)rad; j <= 2 * rad; ++j)
            {
                const Vec w {i / 2., j / 2.};
                if (dot(w, w) <= rad * rad && feasible(P, w))
                    P.wit.push_back(w);
            }
        ++k;
        for (int v = 0; v < (a.thorough ? 4 : 1); ++v)
        {
            Config g {hows[(size_t)(k + v) % 4], k / 2 % 2 == 0, k / 4 % 2 == 0, k % 3, k % 5 ? 1e-4 : 1e-8, 2000};
            ell e(rad * rad * 1.0000001, Arr(x0)); // (the rim belongs to it)
            e.no_defer_trick = !g.defer;
            e.use_parallel_cut = g.par || k % 7 == 0;
            solve(P, g, e, g.how == "bs" ? 60. : 100., .5);
        }
    }
    const int rounds = a.thorough ? 1500 : 90;
    for (int r = 0; r < rounds; ++r)
    {
        const int n = r % 5 == 4 ? 1 : R.range(2, r % 3 ? 3 : 5);
        const double size = std::pow(10., R.real(-2, 3));
        Vec x0((size_t)n), half((size_t)n);
        const bool round = R.chance(.5);
        for (int i = 0; i < n; ++i)
        {
            x0[(size_t)i] = size * R.real(-2, 2);
            half[(size_t)i] = size * (round && i ? half[0] / size : R.real(.2, 3));
        }
        Problem P = random_problem(R, n, x0, half);
        Config g {hows[(size_t)R.upto(n == 1 ? 3 : 4)], R.chance(.6), R.chance(.5), R.upto(3), size * size * std::pow(10., R.real(r % 4 ? -6 : -10, -2)), 2000};
        if (R.chance(.1))
            g.maxit = (unsigned)R.range(1, 15);
        const double h = g.how == "q" ? half[0] / R.range(2, 8) : 0;
        witnesses(R, P, x0, half, 25, h);
        // where the best value starts: above all, or so low that nothing is better
        double t0 = 1e-9;
        for (int i = 0; i < 200; ++i)
        {
            Vec x(x0);
            for (int j = 0; j < n; ++j)
                x[(size_t)j] += half[(size_t)j] * R.real(-1, 1);
            t0 = i ? std::max(t0, objective(P, x)) : objective(P, x);
        }
        if (g.how != "bs" && R.chance(.15))
            for (auto& w : P.wit)
                t0 = std::min(t0, objective(P, w) + size * R.real(-.1, .1));
        if (n == 1)
            solve(P, g, ell1d(x0[0] - half[0], x0[0] + half[0]), t0, h);
        else
        {
            Arr d = array(half);
            for (auto& z : d)
                z *= z;
            ell e = round ? ell(d(0), array(x0)) : ell(d, array(x0));
            e.no_defer_trick = !g.defer;
            e.use_parallel_cut = g.par || R.chance(.2);
            solve(P, g, e, t0, h);
        }
    }
    return 0;
}
