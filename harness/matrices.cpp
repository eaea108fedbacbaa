// Recorded queries to the matrix inequality oracles (C16, C17).
#include "common.hpp"
#include <ellcpp/oracles/lmi0_oracle.hpp>
#include <ellcpp/oracles/lmi_old_oracle.hpp>
#include <ellcpp/oracles/lmi_oracle.hpp>
#include <ellcpp/oracles/qmi_oracle.hpp>
#include <memory>

using vp::Ev;
using Arr = xt::xarray<double, xt::layout_type::row_major>;
using Cut = std::tuple<Arr, double>;
using Ans = std::optional<Cut>;
using Vec = std::vector<double>;

static Arr arr(const Vec& v)
{
    Arr a = xt::zeros<double>({v.size()});
    for (size_t i = 0; i != v.size(); ++i)
        a(i) = v[i];
    return a;
}

struct Problem
{
    std::string form; // minus, plus, quad
    std::vector<Arr> F;
    Arr F0;
    std::vector<Arr> cone; // F0, -F1, ..: the same inequality without a constant
    Arr lin(const Vec& x) const
    {
        Arr a = form == "plus" ? Arr(xt::zeros<double>(F[0].shape())) : F0;
        for (size_t k = 0; k != x.size(); ++k)
            for (size_t i = 0; i != a.shape()[0]; ++i)
                for (size_t j = 0; j != a.shape()[1]; ++j)
                    a(i, j) += (form == "plus" ? 1. : -1.) * F[k](i, j) * x[k];
        return a;
    }
    // only steers the choice of points
    bool acceptable(const Vec& x, double t) const
    {
        Arr a = lin(x);
        size_t n = a.shape()[1];
        std::vector<Vec> m(n, Vec(n, 0.));
        for (size_t i = 0; i != n; ++i)
            for (size_t j = 0; j != n; ++j)
            {
                if (form != "quad")
                {
                    m[i][j] = a(i, j);
                    continue;
                }
                double s = 0;
                for (size_t k = 0; k != a.shape()[0]; ++k)
                    s += a(k, i) * a(k, j);
                m[i][j] = (i == j ? t : 0.) - s;
            }
        for (size_t k = 0; k != n; ++k)
        {
            if (!(m[k][k] > 0))
                return false;
            for (size_t i = k + 1; i != n; ++i)
            {
                const double l = m[i][k] / m[k][k];
                for (size_t j = k; j != n; ++j)
                    m[i][j] -= l * m[k][j];
            }
        }
        return true;
    }
};

// the oracles under test, over the same data
struct Oracles
{
    const Problem& P;
    std::unique_ptr<lmi_oracle> lazy;
    std::unique_ptr<lmi_old_oracle> plain;
    std::unique_ptr<lmi0_oracle> cone;
    std::unique_ptr<qmi_oracle> quad;
    explicit Oracles(const Problem& p) : P {p}
    {
        if (P.form == "minus")
        {
            lazy = std::make_unique<lmi_oracle>(gsl::span<const Arr>(P.F), P.F0);
            plain = std::make_unique<lmi_old_oracle>(gsl::span<const Arr>(P.F), P.F0);
            cone = std::make_unique<lmi0_oracle>(gsl::span<const Arr>(P.cone));
        }
        else if (P.form == "plus")
            cone = std::make_unique<lmi0_oracle>(gsl::span<const Arr>(P.F));
        else
            quad = std::make_unique<qmi_oracle>(gsl::span<const Arr>(P.F), P.F0);
    }
    Ans ask(const std::string& who, const Vec& x, double t)
    {
        if (who == "lazy")
            return (*lazy)(arr(x));
        if (who == "plain")
            return (*plain)(arr(x));
        if (who == "quad")
        {
            quad->update(t);
            return (*quad)(arr(x));
        }
        if (P.form == "plus")
            return (*cone)(arr(x));
        Vec h {1.};
        h.insert(h.end(), x.begin(), x.end());
        auto a = (*cone)(arr(h));
        if (!a)
            return a;
        auto& [g, f] = *a;
        Arr tail = xt::zeros<double>({x.size()});
        for (size_t k = 0; k != x.size(); ++k)
            tail(k) = g(k + 1);
        return {{tail, f}};
    }
    // the level is left as it is
    Ans again(const Vec& x) { return (*quad)(arr(x)); }
};

static std::string answer(const Ans& a)
{
    if (!a)
        return "\"ok\":true,\"f\":0,\"g\":[]";
    auto& [g, f] = *a;
    return "\"ok\":false,\"f\":" + Ev::q(f) + ",\"g\":" + Ev::list(g);
}
static std::vector<std::string> whos(const Problem& P)
{
    if (P.form == "minus")
        return {"lazy", "plain", "cone"};
    return {P.form == "plus" ? "cone" : "quad"};
}

// short numbers, so that exact arithmetic stays cheap
static double brief(double x)
{
    if (x == 0 || !std::isfinite(x))
        return x;
    int e;
    std::frexp(x, &e);
    const double u = std::ldexp(1., e - 24);
    return std::nearbyint(x / u) * u;
}

struct Session
{
    const Problem& P;
    Oracles O;
    vp::Rng& R;
    bool exact;
    std::vector<Vec> grid; // points tried against every cut
    std::vector<Vec> inside;
    double one = 1.; // the scale of the points
    Session(const Problem& p, vp::Rng& r, bool ex) : P {p}, O {p}, R {r}, exact {ex}
    {
        std::string s = "[";
        for (size_t k = 0; k != P.F.size(); ++k)
            s += (k ? "," : "") + Ev::mlist(P.F[k]);
        Ev b("Begin");
        b.str("form", P.form).raw("F", s + "]");
        if (P.form == "plus")
            b.raw("F0", "[]");
        else
            b.mat("F0", P.F0);
        b.emit();
    }
    // as far as acceptable from y in direction d
    Vec press(const Vec& y, const Vec& d, double t, double top)
    {
        double lo = 0, hi = top;
        auto at = [&](double s) {
            Vec z(y);
            for (size_t k = 0; k != z.size(); ++k)
                z[k] = brief(z[k] + s * one * d[k]);
            return z;
        };
        if (!P.acceptable(at(hi), t))
        {
            for (int k = 0; k < 24; ++k)
            {
                const double m = (lo + hi) / 2;
                (P.acceptable(at(m), t) ? lo : hi) = m;
            }
        }
        else
            lo = hi;
        return at(lo);
    }
    std::vector<Vec> tries(const Vec& x, double t, const Arr& g, size_t count)
    {
        std::vector<Vec> r;
        for (auto& y : grid)
            if (P.acceptable(y, t))
                r.push_back(y);
        while (r.size() > count)
            r.erase(r.begin() + R.upto((int)r.size()));
        Vec c;
        for (auto& y : inside)
            if (P.acceptable(y, t))
                c = y;
        for (int k = 0; k < 60 && c.empty(); ++k)
        {
            Vec y(x.size());
            for (auto& v : y)
                v = brief(one * R.real(-3, 3));
            if (P.acceptable(y, t))
                c = y;
        }
        if (c.empty())
            return r;
        double gn = 1e-300;
        for (double v : g)
            gn = std::max(gn, std::abs(v));
        auto value = [&](const Vec& y) {
            double s = 0;
            for (size_t k = 0; k != y.size(); ++k)
                s += g(k) * (y[k] - x[k]);
            return s;
        };
        Vec best = c;
        for (size_t k = 0; k < 2 * count; ++k)
        {
            Vec d(x.size());
            const double bias = R.pick(Vec {0, .3, 1, 1, 3});
            for (size_t i = 0; i != d.size(); ++i)
                d[i] = R.real(-1, 1) + bias * g(i) / gn;
            Vec from = R.chance(.5) ? best : c;
            for (size_t i = 0; i != from.size(); ++i)
                from[i] = brief(c[i] + (from[i] - c[i]) * R.pick(Vec {1, .9, .5}));
            if (!P.acceptable(from, t))
                continue;
            Vec y = press(from, d, t, R.pick(Vec {1, 10, 100}));
            if (value(y) >= value(best) || r.size() < count)
                r.push_back(y);
            if (value(y) > value(best))
                best = y;
        }
        while (r.size() > count)
            r.erase(r.begin() + R.upto((int)r.size() - 1));
        return r;
    }
    Ans query(const std::string& who, const Vec& x, double t, bool keep_level = false)
    {
        const Ans a = keep_level ? O.again(x) : O.ask(who, x, t);
        Oracles N(P);
        const Ans fresh = N.ask(who, x, t);
        std::string ys = "[";
        if (a)
        {
            auto list = tries(x, t, std::get<0>(*a), exact ? 8 : 9);
            for (size_t k = 0; k != list.size(); ++k)
                ys += (k ? "," : "") + Ev::list(list[k]);
        }
        std::string f = "{" + answer(fresh) + "}";
        const std::string body = answer(a); // "ok":..,"f":..,"g":..
        Ev e("Query");
        e.str("who", who).vec("x", x).num("t", t).b("exact", exact).raw("fresh", f).raw("ys", ys + "]");
        // append the answer's fields
        e.raw("ok", body.substr(5));
        e.emit();
        return a;
    }
};

static Arr cmat(vp::Cur& c)
{
    const size_t n = (size_t)c.i();
    Arr a;
    for (size_t i = 0; i != n; ++i)
    {
        const size_t m = (size_t)c.i();
        if (i == 0)
            a = xt::zeros<double>({n, m});
        for (size_t j = 0; j != m; ++j)
            a(i, j) = c.d();
    }
    return a;
}
static void cone_of(Problem& P)
{
    if (P.form != "minus")
        return;
    P.cone.push_back(P.F0);
    for (auto& f : P.F)
        P.cone.push_back(Arr(-f));
}

static void scripted(const vp::Args& a, vp::Rng& R)
{
    for (auto& line : a.scenarios)
    {
        vp::Cur c(line);
        Problem P;
        P.form = c.s();
        for (auto k = c.i(); k > 0; --k)
            P.F.push_back(cmat(c));
        P.F0 = cmat(c);
        if (P.F0.size() == 0 && P.form != "plus")
            P.F0 = xt::zeros<double>(P.F[0].shape());
        cone_of(P);
        Vec levels;
        for (auto k = c.i(); k > 0; --k)
            levels.push_back(c.d());
        std::vector<Vec> pts;
        for (auto k = c.i(); k > 0; --k)
        {
            Vec p;
            for (auto j = c.i(); j > 0; --j)
                p.push_back(c.d());
            pts.push_back(p);
        }
        const bool quad = P.form == "quad";
        if (!R.chance(a.thorough ? 1. : quad ? 1. : .5)) // a sample of the problems, in full
            continue;
        vp::guarded(20, [&] {
            Session S(P, R, true);
            S.grid = pts;
            const int queries = quad ? 8 : 6;
            for (int k = 0; k < queries; ++k)
            {
                const Vec x = k == queries - 1 ? pts[0] : k == 0 ? pts[0] : R.pick(pts);
                const double t = R.pick(levels);
                for (auto& w : whos(P))
                    S.query(w, x, t);
                if (quad && R.chance(.3))
                    S.query("quad", R.pick(pts), t, true);
            }
        });
    }
}

static void seeded(const vp::Args& a, vp::Rng& R, const std::string& part)
{
    const int runs = part == "lmi" ? (a.thorough ? 6000 : 140) : (a.thorough ? 9000 : 320);
    for (int r = 0; r < runs; ++r)
    {
        Problem P;
        P.form = part == "qmi" ? "quad" : R.chance(.75) ? "minus" : "plus";
        const bool quad = P.form == "quad";
        const bool big = r % 20 == 19;
        const size_t nx = (size_t)(big ? R.range(5, 10) : R.range(1, 4));
        const size_t m = (size_t)(big ? R.range(5, 8) : R.range(1, a.thorough ? 6 : 4)), n = quad ? (size_t)R.range(1, big ? 8 : 5) : m;
        const double unit = R.pick(Vec {1, 1, 1, 1e-3, 1e4});
        const double one = R.chance(.75) ? 1. : std::ldexp(1., R.range(-45, 45));
        auto entry = [&] { return brief(unit * R.real(-1, 1)); };
        auto fill = [&](Arr& f) {
            f = xt::zeros<double>({n, m});
            const bool sparse = R.chance(.3);
            for (size_t i = 0; i != n; ++i)
                for (size_t j = 0; j != m; ++j)
                    f(i, j) = sparse && R.chance(.6) ? 0. : entry();
            if (!quad || (n == m && R.chance(.2)))
                for (size_t i = 0; i != n; ++i)
                    for (size_t j = 0; j != i; ++j)
                        f(i, j) = f(j, i);
        };
        for (size_t k = 0; k != nx; ++k)
        {
            Arr f;
            fill(f);
            if (P.form == "plus" && k == 0)
                for (size_t i = 0; i != n; ++i)
                    f(i, i) += 2 * unit;
            for (auto& v : f)
                v /= one;
            P.F.push_back(f);
        }
        if (P.form != "plus")
        {
            fill(P.F0);
            if (!quad)
            {
                const double up = R.pick(Vec {0, 1, 2, 4, -1});
                for (size_t i = 0; i != n; ++i)
                    P.F0(i, i) += up * unit;
            }
        }
        cone_of(P);
        vp::guarded(30, [&] {
            Session S(P, R, false);
            S.one = one;
            S.inside.push_back(Vec(nx, 0.));
            std::vector<std::pair<Vec, double>> old;
            double t = 0;
            const int queries = R.range(3, a.thorough ? 12 : 7);
            for (int q = 0; q < queries; ++q)
            {
                Vec x(nx);
                bool keep = false;
                if (!old.empty() && R.chance(.35))
                {
                    x = R.pick(old).first;
                    if (R.chance(.6))
                        t = R.pick(old).second;
                    else if (quad)
                        t = brief(t * R.pick(Vec {.25, .9, 1.2, 4}));
                }
                else
                {
                    const double rad = R.pick(Vec {.1, .5, 1, 3, 20});
                    for (auto& v : x)
                        v = brief(one * R.real(-rad, rad));
                    if (P.form == "plus" && R.chance(.7))
                        x[0] = brief(std::abs(x[0]) + .5 * one);
                    if (quad)
                    {
                        if (q > 0 && R.chance(.4))
                            keep = true;
                        else // around the level at which x becomes acceptable
                        {
                            double lo = 0, hi = 1e-12 * unit * unit;
                            while (!P.acceptable(x, hi) && hi < 1e12 * unit * unit)
                                hi *= 2;
                            for (int k = 0; k < 30; ++k)
                                (P.acceptable(x, (lo + hi) / 2) ? hi : lo) = (lo + hi) / 2;
                            t = brief(hi * R.pick(Vec {.05, .5, .97, 1.03, 1 - 2e-5, 1 + 2e-5, 1.5, 10, 0, -1}));
                        }
                    }
                    else if (R.chance(.5)) // close to the boundary
                    {
                        Vec z(nx, 0.);
                        if (P.form == "plus")
                            z[0] = one;
                        if (P.acceptable(z, 0))
                        {
                            {
                            Vec d(x);
                            for (auto& v : d)
                                v /= one;
                            x = S.press(z, d, 0, 100);
                            }
                            const double s = R.pick(Vec {.97, 1.03, 1 - 2e-5, 1 + 2e-5, 1.3, 3});
                            for (size_t i = 0; i != nx; ++i)
                                x[i] = brief(z[i] + s * (x[i] - z[i]));
                        }
                    }
                }
                for (auto& w : whos(P))
                    S.query(w, x, t, keep && w == "quad");
                old.emplace_back(x, t);
                if (P.acceptable(x, t))
                    S.inside.push_back(x);
            }
        });
    }
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    vp::Rng R(a.seed + (a.part == "lmi" ? 16 : 17));
    scripted(a, R);
    seeded(a, R, a.part);
    return 0;
}
