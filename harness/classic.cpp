// Recorded searches of the classic ellipsoid method in ellip/ (C26).
#include "common.hpp"
#include <ellip/ellipsoid.cpp>
#include <ellip/gp_solve.cpp>
#define main profitmaxprob_main
#include <ellip/profitmaxprob.cpp>
#undef main

using vp::Ev;
using V = std::valarray<double>;
static std::vector<double> plain(const V& v) { return {std::begin(v), std::end(v)}; }
static const char* word(CUTSTATUS s) { return s == CUT ? "cut" : s == NOSOLUTION ? "nosolution" : "noeffect"; }
static const char* word(STATUS s) { return s == FOUND ? "found" : s == NOTFOUND ? "notfound" : "limit"; }
static std::string nested(const std::vector<std::vector<double>>& v)
{
    std::string r = "[";
    for (size_t i = 0; i != v.size(); ++i)
        r += (i ? "," : "") + Ev::list(v[i]);
    return r + "]";
}

// ---- the searches, with everything scripted
struct Step
{
    bool ok;
    double f, ahead;
    CUTSTATUS verdict;
    double to; // how far the centre moves
};
struct Script
{
    std::vector<Step> steps;
    size_t asked = 0, cut = 0;
};
struct MockOracle
{
    Script& s;
    Info4EM<V> operator()(const V& x)
    {
        if (s.asked >= s.steps.size())
            throw vp::Overrun();
        const Step& t = s.steps[s.asked++];
        Info4EM<V> r;
        r._is_feasible = t.ok;
        r._g = V {1., (double)s.asked};
        r._f = t.f;
        r._x = x - V {t.ahead, 0.};
        Ev("Ask").vec("x", plain(x)).b("ok", t.ok).num("f", t.f).vec("nx", plain(r._x)).num("ahead", t.ahead).vec("g", plain(r._g)).emit();
        return r;
    }
};
struct MockRegion
{
    Script& s;
    V c;
    V& x() { return c; }
    CUTSTATUS update(const V& g) { return update(g, 0.); }
    CUTSTATUS update(const V& g, double beta)
    {
        if (s.cut >= s.steps.size())
            throw vp::Overrun();
        const Step& t = s.steps[s.cut++];
        c[0] += t.to;
        Ev("Cut").vec("g", plain(g)).num("beta", beta).str("verdict", word(t.verdict)).vec("x", plain(c)).emit();
        return t.verdict;
    }
};
static const double UNSET = -777.;
template <typename E, typename O>
static void search(const std::string& kind, E& e, O& o, int most, double tol, size_t n, bool defaults = false)
{
    V bx(UNSET, n);
    double bf = UNSET;
    Ev("Search").str("kind", kind).i("most", most).num("tol", tol).vec("x", plain(e.x())).emit();
    STATUS st;
    if (kind == "dc")
        st = defaults ? ellipsoid_dc(e, o, bx, bf) : ellipsoid_dc(e, o, bx, bf, most, tol);
    else if (kind == "discrete")
        st = defaults ? ellipsoid_dc_discrete(e, o, bx, bf) : ellipsoid_dc_discrete(e, o, bx, bf, most, tol);
    else
        st = defaults ? ellipsoid_algo(e, o, bx, bf) : ellipsoid_algo(e, o, bx, bf, most, tol);
    bool had = false;
    for (double x : bx)
        had = had || x != UNSET;
    Ev("Done").str("status", word(st)).vec("bx", plain(bx)).num("bf", bf).b("had", had).emit();
}
static void replay(const std::vector<std::string>& t)
{
    vp::Cur c(t);
    const auto kind = c.s();
    const int most = (int)c.i();
    Script s;
    for (auto n = c.i(); n > 0; --n)
    {
        c.i();
        Step p;
        p.ok = c.b(), p.f = c.d(), p.ahead = c.d();
        const auto v = c.s();
        p.verdict = v == "cut" ? CUT : v == "nosolution" ? NOSOLUTION : NOEFFECT;
        p.to = c.b() ? 0. : 1.;
        s.steps.push_back(p);
    }
    Ev("Begin").emit();
    MockOracle o {s};
    MockRegion r {s, V {0., 0.}};
    search(kind, r, o, most, .25, 2);
}
static void scripted(vp::Rng& R)
{
    static const std::vector<std::string> K {"dc", "discrete", "algo"};
    const auto kind = R.pick(K);
    const int most = R.range(0, 40);
    const double tol = std::ldexp(1., R.range(-20, 2));
    Script s;
    const double stay = R.real(0., .1), refuse = R.real(0., .1), ok = R.unit();
    for (int i = 0; i < most; ++i)
    {
        Step p;
        p.ok = R.chance(ok);
        p.f = R.range(-40, 40) / 8.;
        p.ahead = kind == "discrete" ? R.range(-16, 16) / 4. : 0.;
        p.verdict = kind == "algo" || !R.chance(refuse) ? CUT : R.chance(.5) ? NOSOLUTION : NOEFFECT;
        // less than the tolerance, just as much, or more
        p.to = (R.chance(.5) ? 1. : -1.) * (R.chance(stay) ? R.upto(4) * tol / 4. : tol * R.range(4, 12) / 4.);
        s.steps.push_back(p);
    }
    Ev("Begin").emit();
    MockOracle o {s};
    MockRegion r {s, V {R.range(-8, 8) * tol, 0.}};
    search(kind, r, o, most, tol, 2);
}
static void withDefaults(vp::Rng& R)
{
    static const std::vector<std::string> K {"dc", "discrete", "algo"};
    Script s;
    for (int i = 0; i < 100; ++i)
        s.steps.push_back({R.chance(.5), R.range(-40, 40) / 8., 0., CUT, 1.});
    if (R.chance(.5)) // at once less than 1e-4
        s.steps[(size_t)R.upto(100)].to = R.chance(.5) ? 0.00009 : 0.;
    Ev("Begin").emit();
    MockOracle o {s};
    MockRegion r {s, V {0., 0.}};
    search(R.pick(K), r, o, 100, 1e-4, 2, true);
}

// ---- the real region; its shape is measured by cuts that copies of it refuse
static double halfwidth(const ellipsoid& e, const V& g)
{
    uint64_t lo = 0, hi;
    const double top = 1e150;
    std::memcpy(&hi, &top, 8);
    while (hi - lo > 1) // hi is refused, lo is not
    {
        const uint64_t m = lo + (hi - lo) / 2;
        double b;
        std::memcpy(&b, &m, 8);
        ellipsoid c(e);
        (c.update(g, b) == NOSOLUTION ? hi : lo) = m;
    }
    double b;
    std::memcpy(&b, &lo, 8);
    return b;
}
static std::vector<std::vector<double>> shape(const ellipsoid& e, size_t n)
{
    std::vector<std::vector<double>> P(n, std::vector<double>(n, 0.));
    V s(1., n);
    for (size_t i = 0; i != n; ++i)
    {
        V g(0., n);
        g[i] = 1.;
        const double t = halfwidth(e, g);
        P[i][i] = t * t;
        if (t > 0)
            s[i] = std::exp2(-std::floor(std::log2(t)));
    }
    for (size_t i = 0; i != n; ++i)
        for (size_t j = i + 1; j != n; ++j)
        {
            V g(0., n);
            g[i] = s[i], g[j] = s[j];
            const double p = halfwidth(e, g);
            g[j] = -s[j];
            const double m = halfwidth(e, g);
            P[i][j] = P[j][i] = (p - m) * (p + m) / 4 / s[i] / s[j];
        }
    return P;
}
using Terms = std::vector<std::pair<double, std::vector<double>>>;
static std::string program(const std::vector<Terms>& p)
{
    std::string r = "[";
    for (size_t i = 0; i != p.size(); ++i)
    {
        r += i ? ",[" : "[";
        for (size_t k = 0; k != p[i].size(); ++k)
            r += std::string(k ? "," : "") + "{\"c\":" + Ev::q(p[i][k].first) + ",\"a\":" + Ev::list(p[i][k].second) + "}";
        r += "]";
    }
    return r + "]";
}
static ellipsoid made(V x0, const std::vector<double>& d, bool one, const std::vector<std::vector<double>>& pts, const std::vector<Terms>& prob)
{
    V r(d.data(), d.size());
    V x(x0);
    ellipsoid e = one ? ellipsoid(x, d[0]) : ellipsoid(x, r);
    x = -1e9; // the space has its own
    Ev("Make").vec("x0", plain(x0)).vec("d", d).vec("x", plain(e.x())).raw("P", nested(shape(e, d.size()))).raw("pts", nested(pts)).raw("prob", program(prob)).emit();
    return e;
}
// points of the start
static std::vector<std::vector<double>> within(vp::Rng& R, const V& x0, const std::vector<double>& d, int count)
{
    std::vector<std::vector<double>> pts;
    for (int k = 0; k < count; ++k)
    {
        std::vector<double> u;
        double s = 0.;
        for (size_t i = 0; i != d.size(); ++i)
        {
            u.push_back(R.real(-1., 1.));
            s += u.back() * u.back();
        }
        const double len = R.real(.1, .999) / std::sqrt(s);
        for (size_t i = 0; i != d.size(); ++i)
            u[i] = x0[i] + u[i] * len * std::sqrt(d[i]);
        pts.push_back(u);
    }
    return pts;
}
static void cuts(vp::Rng& R, bool thorough)
{
    const size_t n = (size_t)R.range(2, thorough ? 6 : 4);
    const bool one = R.chance(.4);
    V x0(0., n);
    std::vector<double> d;
    for (size_t i = 0; i != n; ++i)
    {
        x0[i] = R.real(-5., 5.);
        d.push_back(one && i ? d[0] : std::exp(R.real(-3., 4.)));
    }
    Ev("Begin").emit();
    const auto pts = within(R, x0, d, 12);
    ellipsoid e = made(x0, d, one, pts, {});
    const int steps = R.range(1, thorough ? 20 : 10);
    for (int k = 0; k < steps; ++k)
    {
        if (R.chance(.1))
            ellipsoid(e).update(V(1., n)); // a copy stands alone
        V g(0., n);
        for (auto& x : g)
            x = R.chance(.2) ? 0. : R.real(-1., 1.) * std::exp(R.real(-2., 2.));
        if ((g * g).sum() < 1e-3)
            g[0] = 1.;
        const double tau = halfwidth(e, g);
        double beta;
        const bool last = k + 1 == steps && R.chance(.5);
        const double least = -1. / (double)n;
        switch (last ? R.range(6, 7) : R.upto(6))
        {
            case 0: beta = 0.; break;
            case 1: beta = tau * R.real(0., .9); break;
            case 2: beta = tau * R.real(least * .99, 0.); break;
            case 3: beta = tau * R.real(-1.2, least * 1.01); break;
            case 4: beta = tau * R.real(0., .3); break;
            case 6: beta = tau * (1. - std::pow(10., R.real(-5., -1.))); break;
            case 7: beta = tau * least * (1. + (R.chance(.5) ? 1 : -1) * std::pow(10., R.real(-5., -1.))); break;
            default: beta = R.chance(.2) ? tau * R.real(1.01, 2.) : tau * R.real(least * .5, .2); break;
        }
        CUTSTATUS st = CUT;
        if (beta == 0. && R.chance(.7))
            e.update(g);
        else
            st = e.update(g, beta);
        Ev("Alone").vec("g", plain(g)).num("beta", beta).str("verdict", word(st)).vec("x", plain(e.x())).raw("P", nested(shape(e, n))).emit();
    }
}

// ---- geometric programs
struct Gp : gp_base<double>
{
    explicit Gp(const std::vector<Terms>& p)
    {
        for (auto& t : p)
        {
            posynomial<double> q(monomial<double>(t[0].first, V(t[0].second.data(), t[0].second.size())));
            for (size_t k = 1; k < t.size(); ++k)
                q += monomial<double>(t[k].first, V(t[k].second.data(), t[k].second.size()));
            this->_M.push_back(q);
        }
    }
};
template <typename G>
struct Watched
{
    const G& g;
    Info4EM<V> operator()(const V& x)
    {
        const auto r = g(x);
        Ev("Ask").vec("x", plain(x)).b("ok", r._is_feasible).num("f", r._f).vec("nx", plain(r._x)).num("ahead", 0.).vec("g", plain(r._g)).emit();
        return r;
    }
};
// a shape too flat to be measured: the rest of the search is not watched
struct Enough { };
static bool flat(std::vector<std::vector<double>> P)
{
    long double rest = 1.;
    const size_t n = P.size();
    std::vector<std::vector<long double>> A(n, std::vector<long double>(n));
    for (size_t i = 0; i != n; ++i)
        for (size_t j = 0; j != n; ++j)
            A[i][j] = P[i][j] / std::sqrt((long double)P[i][i] * P[j][j]);
    for (size_t k = 0; k != n; ++k)
    {
        rest *= A[k][k];
        if (!(rest > 1e-9))
            return true;
        for (size_t i = k + 1; i != n; ++i)
            for (size_t j = k + 1; j != n; ++j)
                A[i][j] -= A[i][k] * A[k][j] / A[k][k];
    }
    return false;
}
struct Region
{
    ellipsoid e;
    size_t n;
    int cuts = 0;
    V& x() { return e.x(); }
    CUTSTATUS update(const V& g)
    {
        e.update(g);
        note(g, 0., CUT);
        return CUT;
    }
    CUTSTATUS update(const V& g, double beta)
    {
        const auto st = e.update(g, beta);
        note(g, beta, st);
        return st;
    }
    void note(const V& g, double beta, CUTSTATUS st)
    {
        if (++cuts > 3000)
            throw vp::Overrun();
        const auto P = shape(e, n);
        Ev("Cut").vec("g", plain(g)).num("beta", beta).str("verdict", word(st)).vec("x", plain(e.x())).raw("P", nested(P)).emit();
        if (flat(P))
            throw Enough();
    }
};
// the program's answers just on either side of the edge of what it admits
static void edges(vp::Rng& R, const Gp& g, const std::vector<std::vector<double>>& pts)
{
    auto vec = [](const std::vector<double>& p) { return V(p.data(), p.size()); };
    for (int k = 0; k < 30; ++k)
    {
        V in = vec(R.pick(pts)), out = vec(R.pick(pts));
        auto ok = [&](const V& y) { return g(y)._is_feasible; };
        if (ok(in) == ok(out))
            continue;
        if (ok(out))
            std::swap(in, out);
        const V way = out - in;
        const double norm = std::sqrt((way * way).sum());
        for (int i = 0; i < 60; ++i)
        {
            const V mid = (in + out) / 2.;
            (ok(mid) ? in : out) = mid;
        }
        for (const double off : {-1e-4, -1e-7, 1e-7, 1e-5})
        {
            const V y = in + way / norm * off;
            const auto r = g(y);
            Ev("Probe").vec("x", plain(y)).b("ok", r._is_feasible).num("f", r._f).vec("nx", plain(r._x)).vec("g", plain(r._g)).emit();
        }
    }
}
static void solve(vp::Rng& R, bool thorough)
{
    static const std::vector<std::string> K {"dc", "dc", "discrete", "algo"};
    const size_t n = (size_t)R.range(2, thorough ? 4 : 3);
    std::vector<Terms> p;
    for (int m = R.range(1, 4); m > 0; --m)
    {
        Terms t;
        for (int k = R.range(1, 3); k > 0; --k)
        {
            std::vector<double> a;
            for (size_t i = 0; i != n; ++i)
                a.push_back(R.chance(.2) ? 0. : R.real(-2., 2.));
            a[(size_t)R.upto((int)n)] = (R.chance(.5) ? 1. : -1.) * R.real(.1, 2.); // no constants: they have no cut
            t.emplace_back(std::exp(R.real(p.empty() ? -2. : -3., p.empty() ? 2. : .5)), a);
        }
        p.push_back(t);
    }
    V x0(0., n);
    std::vector<double> d;
    const bool one = R.chance(.5);
    for (size_t i = 0; i != n; ++i)
    {
        x0[i] = R.real(-1., 1.);
        d.push_back(one && i ? d[0] : std::exp(R.real(-1., 3.)));
    }
    Ev("Begin").emit();
    Gp g(p);
    Watched<Gp> w {g};
    const auto pts = within(R, x0, d, 10);
    Region r {made(x0, d, one, pts, p), n};
    edges(R, g, pts);
    search(R.pick(K), r, w, R.range(5, thorough ? 60 : 30), std::exp(R.real(-9., -2.)), n);
}
static void profit(vp::Rng& R)
{
    const std::vector<Terms> p {{{1., {-1., 0., 0.}}}, {{1. / 40., {0., 1., 0.}}},
        {{1. / 800., {1., -.1, -.4}}, {10. / 800., {0., .9, -.4}}, {35. / 800., {0., -.1, .6}}}};
    profit_max<double> g;
    V z {R.real(-1., 8.), R.real(-1., 3.), R.real(-1., 3.)};
    const std::vector<double> d(3, R.chance(.5) ? 150. : R.real(5., 200.));
    Ev("Begin").emit();
    Watched<profit_max<double>> w {g};
    Region r {made(z, d, true, within(R, z, d, 10), p), 3};
    search("dc", r, w, 40, 1e-8, 3);
}

template <typename F>
static void watched(F&& f)
{
    try { f(); }
    catch (const Enough&) { }
}
int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    vp::Rng R(a.seed + 26);
    for (auto& t : a.scenarios)
        vp::guarded(10, [&] { replay(t); });
    const int k = a.thorough ? 12 : 1;
    for (int r = 0; r < 200 * k; ++r)
        vp::guarded(10, [&] { scripted(R); });
    for (int r = 0; r < 20 * k; ++r)
        vp::guarded(10, [&] { withDefaults(R); });
    for (int r = 0; r < 120 * k; ++r)
        vp::guarded(10, [&] { cuts(R, a.thorough); });
    for (int r = 0; r < (a.thorough ? 200 : 40); ++r)
        vp::guarded(10, [&] { watched([&] { solve(R, a.thorough); }); });
    for (int r = 0; r < (a.thorough ? 12 : 3); ++r)
        vp::guarded(10, [&] { watched([&] { profit(R); }); });
    return 0;
}
