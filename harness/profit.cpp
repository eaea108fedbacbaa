// Recorded questions to the profit oracles (C19).
#include "common.hpp"
#include <algorithm>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/oracles/profit_oracle.hpp>

using vp::Ev;
using Arr = xt::xarray<double, xt::layout_type::row_major>;
using Vec = std::vector<double>;
using P2 = std::array<double, 2>;

struct Job
{
    std::string form;
    double p, A, k;
    P2 a, v, e;
    double e3;
    double room(const P2& y) const { return std::log(k - (form == "robust" ? e3 : 0)) - y[0]; }
    // only steers the choice of points
    double profit(const P2& y) const
    {
        const double d = form == "robust" ? e3 : 0;
        double r = 0;
        for (int i = 0; i < 2; ++i)
        {
            const double w = form == "robust" ? e[i] : 0;
            r += std::min((a[i] - w) * y[i], (a[i] + w) * y[i]);
        }
        return (p - d) * A * std::exp(r) - (v[0] + d) * std::exp(y[0]) - (v[1] + d) * std::exp(y[1]);
    }
    bool better(const P2& y, double t) const { return room(y) > 1e-8 && profit(y) > t + 1e-8 * (1 + std::fabs(t)); }
    P2 optimum() const // by halving steps
    {
        P2 y {0, 0};
        y[0] = std::min(0., room(y) - .1);
        for (double s = 2; s > 1e-5; s *= .6)
            for (int r = 0; r < 12; ++r)
                for (int q = 0; q < 8; ++q)
                {
                    P2 z = y;
                    z[0] += s * std::cos(q * .7853981633974483);
                    z[1] += s * std::sin(q * .7853981633974483);
                    if (room(z) > 1e-6 && profit(z) > profit(y))
                        y = z;
                }
        return y;
    }
};

static void begin(const Job& j)
{
    Ev("Begin").str("form", j.form).num("p", j.p).num("A", j.A).num("k", j.k).vec("a", j.a).vec("v", j.v)
        .vec("box", j.e).num("e3", j.form == "robust" ? j.e3 : 0.).emit();
}

static double brief(double x) { return std::nearbyint(x * 1048576.) / 1048576.; }

struct Chooser
{
    const Job& J;
    vp::Rng& R;
    P2 top;
    Chooser(const Job& j, vp::Rng& r) : J {j}, R {r}, top {j.optimum()} { }
    // points at least as good as t, pressed against the cut
    std::vector<P2> points(const Arr& y, const Arr& g, double t, size_t count)
    {
        std::vector<P2> r;
        if (!J.better(top, t))
            return r;
        auto value = [&](const P2& z) { return g(0) * (z[0] - y(0)) + g(1) * (z[1] - y(1)); };
        const double gn = std::hypot(g(0), g(1)) + 1e-300;
        for (int q = 0; q < 40; ++q)
        {
            const double bias = R.pick(Vec {0, 1, 2});
            P2 d {R.real(-1, 1) + bias * g(0) / gn, R.real(-1, 1) + bias * g(1) / gn};
            double lo = 0, hi = R.pick(Vec {1, 5, 20});
            auto at = [&](double s) { return P2 {brief(top[0] + s * d[0]), brief(top[1] + s * d[1])}; };
            for (int k = 0; k < 30; ++k)
            {
                const double m = (lo + hi) / 2;
                (J.better(at(m), t) ? lo : hi) = m;
            }
            r.push_back(at(lo));
        }
        std::sort(r.begin(), r.end(), [&](const P2& a, const P2& b) { return value(a) > value(b); });
        if (r.size() > count)
            r.resize(count);
        return r;
    }
    std::vector<P2> integers(const Arr& y, const Arr& g, double t, size_t count)
    {
        std::vector<P2> r;
        for (int i = 1; i <= 60; ++i)
            for (int k = 1; k <= 60; ++k)
                if (J.better({std::log(i), std::log(k)}, t))
                    r.push_back({(double)i, (double)k});
        auto value = [&](const P2& z) { return g(0) * (std::log(z[0]) - y(0)) + g(1) * (std::log(z[1]) - y(1)); };
        std::sort(r.begin(), r.end(), [&](const P2& a, const P2& b) { return value(a) > value(b); });
        if (r.size() > count)
            r.resize(count);
        return r;
    }
};
static std::string plist(const std::vector<P2>& v)
{
    std::string s = "[";
    for (auto& p : v)
        s += (s.size() > 1 ? "," : "") + Ev::list(p);
    return s + "]";
}

template <typename O>
struct Recorder
{
    O& P;
    Chooser& C;
    size_t count;
    int limit = 1000000;
    auto operator()(const Arr& y, double& t)
    {
        if (--limit < 0)
            throw vp::Overrun();
        const double before = t;
        auto r = P(y, t);
        auto& [cut, improved] = r;
        auto& [g, f] = cut;
        Ev("Ask").vec("y", y).num("best", before).num("after", t).b("improved", improved).vec("g", g).num("f", f)
            .raw("zs", plist(C.points(y, g, t, count))).emit();
        return r;
    }
};
struct RecorderQ
{
    profit_q_oracle& P;
    Chooser& C;
    size_t count;
    int limit = 1000000;
    auto operator()(const Arr& y, double& t, bool retry)
    {
        if (--limit < 0)
            throw vp::Overrun();
        const double before = t;
        auto r = P(y, t, retry);
        auto& [cut, yd, improved, more] = r;
        auto& [g, f] = cut;
        Ev("AskInteger").vec("y", y).b("retry", retry).num("best", before).num("after", t).vec("yd", yd).b("improved", improved)
            .b("more", more).vec("g", g).num("f", f).raw("zs", plist(C.integers(y, g, t, count))).emit();
        return r;
    }
};

static Arr arr(const P2& x) { return Arr {x[0], x[1]}; }

// gives the job's oracle to f
template <typename F>
static void with(const Job& j, Chooser& C, size_t count, F&& f)
{
    if (j.form == "plain")
    {
        profit_oracle O(j.p, j.A, j.k, arr(j.a), arr(j.v));
        profit_oracle O2(O);
        Recorder<profit_oracle> rec {O2, C, count};
        f(rec);
    }
    else
    {
        profit_rb_oracle O(j.p, j.A, j.k, arr(j.a), arr(j.v), arr(j.e), j.e3);
        Recorder<profit_rb_oracle> rec {O, C, count};
        f(rec);
    }
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    vp::Rng R(a.seed + 19);
    for (auto& line : a.scenarios)
    {
        vp::Cur c(line);
        Job j;
        j.form = c.s();
        j.p = c.d();
        j.A = c.d();
        j.k = c.d();
        for (auto* w : {&j.a, &j.v, &j.e})
        {
            c.i();
            (*w)[0] = c.d();
            (*w)[1] = c.d();
        }
        j.e3 = c.d();
        double t = c.d();
        if (!R.chance(j.form == "discrete" && !a.thorough ? 1. : a.thorough ? .25 : .6))
        {
            c.drop();
            continue;
        }
        struct Q
        {
            bool retry;
            Arr y;
        };
        std::vector<Q> qs((size_t)c.i());
        for (auto& q : qs)
        {
            c.i();
            q.retry = c.i();
            q.y = Arr {0., 0.};
            q.y(0) = c.d();
            q.y(1) = c.d();
        }
        begin(j);
        vp::guarded(10, [&] {
            Chooser C(j, R);
            if (j.form == "discrete")
            {
                profit_q_oracle O(j.p, j.A, j.k, arr(j.a), arr(j.v));
                RecorderQ rec {O, C, 4};
                bool may = false;
                for (auto& q : qs)
                {
                    rec(q.y, t, q.retry && may);
                    may = !(q.retry && may);
                }
            }
            else
                with(j, C, 3, [&](auto& rec) {
                    for (auto& q : qs)
                        rec(q.y, t);
                });
        });
    }
    for (int r = 0; r < (a.thorough ? 1500 : 90); ++r)
    {
        Job j;
        j.form = R.pick(std::vector<std::string> {"plain", "robust", "robust", "discrete"});
        j.p = R.real(1, 40);
        j.A = R.real(1, 40);
        j.k = R.chance(.3) ? R.real(1.2, 4) : R.real(2, 50);
        j.a = {R.real(.05, .6), R.real(.05, .6)};
        if (j.a[0] + j.a[1] > .9)
            j.a[1] = .9 - j.a[0];
        j.v = {R.real(.5, 40), R.real(.5, 40)};
        j.e = {j.a[0] * R.real(0, .9), j.a[1] * R.real(0, .9)};
        j.e3 = R.chance(.2) ? 0. : R.real(0, .9) * std::min(j.p, j.k);
        if (j.k - j.e3 < .1)
            j.e3 = j.k - .5;
        begin(j);
        vp::guarded(60, [&] {
            Chooser C(j, R);
            auto anywhere = [&](const Arr& about) {
                const double rad = R.pick(Vec {.05, .5, 2, 5});
                Arr y = about;
                y(0) += rad * R.real(-1, 1);
                y(1) += rad * R.real(-1, 1);
                if (R.chance(.15))
                    y((size_t)R.upto(2)) = 0.;
                return y;
            };
            const double top = std::max(0., j.profit(C.top));
            auto level = [&] { return top * R.pick(Vec {0, .3, .9, .999, 1.1}) + (R.chance(.1) ? 5 : 0); };
            Options opt;
            opt.max_it = a.thorough ? 60 : 25;
            opt.tol = 1e-8;
            Arr start {R.real(-1, 3), R.real(-1, 3)};
            double t = 0;
            if (j.form == "discrete")
            {
                profit_q_oracle O(j.p, j.A, j.k, arr(j.a), arr(j.v));
                RecorderQ rec {O, C, 6};
                if (R.chance(.6))
                {
                    ell E {R.pick(Vec {9, 100}), start};
                    cutting_plane_q(rec, E, t, opt);
                }
                for (int q = 0; q < 6; ++q)
                {
                    if (R.chance(.4))
                        t = level();
                    Arr y = anywhere(arr(C.top));
                    rec(y, t, false);
                    if (R.chance(.5))
                        rec(R.chance(.7) ? y : anywhere(y), t, true);
                }
                return;
            }
            with(j, C, 6, [&](auto& rec) {
                if (R.chance(.5))
                {
                    ell E {R.pick(Vec {9, 100}), start};
                    cutting_plane_dc(rec, E, t, opt);
                }
                for (int q = 0; q < 8; ++q)
                {
                    Arr y = anywhere(R.chance(.7) ? arr(C.top) : Arr {0., 0.});
                    if (R.chance(.25)) // hardly past the limit, or hardly within
                        y(0) += j.room({y(0), y(1)}) + (R.chance(.6) ? 1 : -1) * std::pow(10., R.real(-8, -2));
                    if (R.chance(.3)) // hardly better than the best so far, or hardly worse
                        t = std::max(0., j.profit({y(0), y(1)})) * (1 + (R.chance(.6) ? -1 : 1) * std::pow(10., R.real(-8, -2)));
                    else if (R.chance(.5))
                        t = level();
                    rec(y, t);
                }
            });
        });
    }
    return 0;
}
