// Recorded runs of the bisection adaptor (C05), over a mock space and over the
// real spaces, both behind wrappers that record the calls.
#include "common.hpp"
#include "probe.hpp"
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell_stable.hpp>
#include <optional>

using vp::Ev;
using Arr = xt::xarray<double, xt::layout_type::row_major>;

static CUTStatus verdict(const std::string& s)
{
    return s == "success" ? CUTStatus::success : s == "nosoln" ? CUTStatus::nosoln : CUTStatus::noeffect;
}
struct Step
{
    std::string v;
    double tsq;
};
struct World
{
    std::vector<Step> script;
    size_t at = 0;
    long cuts = 0;
    int calls = 0;
    bool elsewhere = false;
};

static std::string word(double t) // levels are names in the trace
{
    char b[40];
    snprintf(b, sizeof b, "%.17g", t);
    return b;
}

// ---- mock
struct Pt
{
    int id;
};
struct MCut
{
    long id;
};
struct MSpace
{
    World* w;
    int x, shape;
    bool is_copy;
    MSpace(World* w_, int x_) : w {w_}, x {x_}, shape {7}, is_copy {false} { }
    MSpace(MSpace&&) = default;
    MSpace copy() const
    {
        MSpace s(w, x);
        s.shape = shape;
        s.is_copy = true;
        return s;
    }
    Pt xc() const { return Pt {x}; }
    void set_xc(const Pt& p) { x = p.id; }
    std::tuple<CUTStatus, double> update(const MCut& c)
    {
        static const Step dflt {"success", 100.};
        const Step s = w->at < w->script.size() ? w->script[w->at++] : dflt;
        if (s.v == "success")
        {
            ++x;
            ++shape;
        }
        Ev("Apply").i("c", c.id).str("verdict", s.v).num("tsq", s.tsq).i("x", x).b("copy", is_copy).emit();
        return {verdict(s.v), s.tsq};
    }
};
struct MOracle
{
    World* w;
    void update(double t)
    {
        Ev(w->elsewhere ? "Elsewhere" : "Level").str("t", word(t)).emit();
    }
    std::optional<MCut> operator()(const Pt& x)
    {
        if (++w->calls > 5000)
            throw vp::Overrun();
        if (w->at < w->script.size() && w->script[w->at].v == "yes")
        {
            ++w->at;
            Ev("Ask").i("x", x.id).i("cut", -1).emit();
            return {};
        }
        Ev("Ask").i("x", x.id).i("cut", ++w->cuts).emit();
        return MCut {w->cuts};
    }
};

static void mock(unsigned limit, double tol, const std::vector<std::vector<Step>>& tests, bool withopts)
{
    World w;
    MSpace S(&w, 0);
    MOracle P {&w};
    Options o;
    if (withopts)
    {
        o.max_it = limit;
        o.tol = tol;
    }
    Ev("Begin").i("x", 0).i("shape", 7).i("maxit", o.max_it).num("tol", o.tol).emit();
    vp::guarded(20, [&] {
        auto run = [&](auto&& first, auto&& second) // both at work on the same oracle and space
        {
            double t = 51;
            int k = 0;
            for (auto& s : tests)
            {
                w.script = s;
                w.at = 0;
                if (!s.empty() && (s[0].v == "new" || s[0].v == "same"))
                {
                    w.at = 1;
                    w.elsewhere = true;
                    if (s[0].tsq < 1e-3)
                        P.update(99);
                    w.elsewhere = false;
                    t -= s[0].v == "new";
                }
                else
                    t -= 1;
                auto& A = ++k % 3 ? first : second;
                Ev("Test").str("t", word(t)).emit();
                const bool yes = A(t);
                Ev("Answer").b("yes", yes).i("x", S.x).i("shape", S.shape).i("best", A.x_best().id).emit();
            }
        };
        if (withopts)
            run(bsearch_adaptor<MOracle, MSpace>(P, S, o), bsearch_adaptor<MOracle, MSpace>(P, S, o));
        else
            run(bsearch_adaptor<MOracle, MSpace>(P, S), bsearch_adaptor<MOracle, MSpace>(P, S));
    });
}

// ---- real spaces
template <typename E>
struct RSpace
{
    E e;
    bool is_copy = false;
    RSpace(E&& e_, bool c) : e {std::move(e_)}, is_copy {c} { }
    RSpace(RSpace&&) = default;
    RSpace copy() const { return RSpace(e.copy(), true); }
    Arr xc() const { return e.xc(); }
    void set_xc(const Arr& x) { e.set_xc(x); }
    template <typename C>
    std::tuple<CUTStatus, double> update(const std::tuple<std::tuple<Arr, C>, long>& c)
    {
        const auto [st, tsq] = e.update(std::get<0>(c));
        Ev("Apply").i("c", std::get<1>(c)).str("verdict", st == CUTStatus::success ? "success" : st == CUTStatus::nosoln ? "nosoln" : "noeffect")
            .num("tsq", tsq).vec("x", e.xc()).b("copy", is_copy).emit();
        return {st, tsq};
    }
};
// the ball-like problem: is there an x with a'x >= t and |x - c|^2 <= r ?
struct ROracle
{
    Arr a, c;
    double r, t = 0;
    long cuts = 0;
    int calls = 0;
    void update(double t_)
    {
        Ev("Level").str("t", word(t_)).emit();
        t = t_;
    }
    std::optional<std::tuple<std::tuple<Arr, double>, long>> operator()(const Arr& x)
    {
        if (++calls > 200000)
            throw vp::Overrun();
        double ax = 0, d2 = 0;
        for (size_t i = 0; i != x.size(); ++i)
        {
            ax += a(i) * x(i);
            d2 += (x(i) - c(i)) * (x(i) - c(i));
        }
        Arr g = a;
        double f;
        if (ax < -t)
        {
            f = -t - ax;
            g = -a;
        }
        else if (d2 > r)
        {
            f = d2 - r;
            for (size_t i = 0; i != x.size(); ++i)
                g(i) = 2 * (x(i) - c(i));
        }
        else
        {
            Ev("Ask").vec("x", x).i("cut", -1).emit();
            return {};
        }
        Ev("Ask").vec("x", x).i("cut", ++cuts).emit();
        return {{{g, f}, cuts}};
    }
};
template <typename E>
static void real(vp::Rng& R, int n, bool bisect)
{
    Arr x0 = xt::zeros<double>({(size_t)n}), a = x0, c = x0;
    for (int i = 0; i != n; ++i)
    {
        x0(i) = R.real(-1, 1);
        a(i) = R.real(-1, 1) + 2 * (i == 0);
        c(i) = R.real(-2, 2);
    }
    RSpace<E> S(E(R.real(20, 60), x0), false);
    ROracle P {a, c, R.real(.5, 3)};
    Options o;
    o.max_it = (unsigned)R.range(3, 60);
    o.tol = 1e-6;
    Ev("Begin").vec("x", S.e.xc()).mat("shape", vp::shape(S.e)).i("maxit", o.max_it).num("tol", o.tol).emit();
    vp::guarded(20, [&] {
        auto A = bsearch_adaptor<ROracle, RSpace<E>>(P, S, o);
        auto one = [&](double t) -> bool
        {
            Ev("Test").str("t", word(t)).emit();
            const bool yes = A(t);
            Ev("Answer").b("yes", yes).vec("x", S.e.xc()).mat("shape", vp::shape(S.e)).vec("best", A.x_best()).emit();
            return yes;
        };
        if (bisect)
        {
            Options b;
            b.max_it = 12;
            b.tol = 1e-3;
            bsearch(one, std::make_pair(-12., 12.), b);
        }
        else
        {
            double t = R.real(-6, 6);
            for (int k = R.range(2, 6); k > 0; --k)
            {
                one(t);
                if (R.chance(.3))
                {
                    Ev("Elsewhere").str("t", word(t + 1)).emit();
                    P.t = t + 1;
                }
                if (R.chance(.7))
                    t = R.real(-6, 6);
            }
        }
    });
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    size_t k = 0;
    for (auto& t : a.scenarios)
    {
        vp::Cur c(t);
        const auto limit = (unsigned)c.i();
        std::vector<std::vector<Step>> tests((size_t)c.i());
        const double tol = 1e-3;
        for (auto& s : tests)
            for (auto n = c.i(); n > 0; --n)
            {
                c.i();
                const auto v = c.s();
                const bool small = c.b();
                s.push_back({v, small ? tol / 2 : (++k % 2 ? tol : 5.)});
            }
        mock(limit, tol, tests, true);
    }
    vp::Rng R(a.seed);
    const int n = a.thorough ? 400 : 24;
    for (int r = 0; r < n; ++r)
    {
        std::vector<std::vector<Step>> tests((size_t)R.range(1, 12));
        for (auto& s : tests)
        {
            s.push_back({R.chance(.6) ? "new" : "same", R.chance(.4) ? 0. : 5.});
            for (int i = R.range(0, 12); i > 0; --i)
                s.push_back({"success", 5.});
            s.push_back({R.chance(.5) ? "yes" : R.chance(.5) ? "nosoln" : "noeffect", 5.});
        }
        mock((unsigned)R.range(1, 15), 1e-3, tests, r % 8 != 0);
        real<ell>(R, R.range(2, 4), r % 3 == 0);
        real<ell_stable>(R, R.range(2, 4), r % 3 == 0);
    }
    return 0;
}
