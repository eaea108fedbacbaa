// Recorded histories of ellipsoidal search spaces (C06-C09).
#include "common.hpp"
#include "probe.hpp"
#include <ellcpp/ell.hpp>
#include <ellcpp/ell_stable.hpp>
#include <memory>

using vp::Ev;
using Arr = xt::xarray<double, xt::layout_type::row_major>;

struct Obj
{
    std::unique_ptr<ell> a;
    std::unique_ptr<ell_stable> b;
    Arr xc() const { return a ? a->xc() : b->xc(); }
    Arr P() const { return a ? vp::shape(*a) : vp::shape(*b); }
    double size(const Arr& g) const { return a ? vp::quad(*a, g) : vp::quad(*b, g); }
    Obj copy() const
    {
        Obj o;
        if (a)
            o.a = std::make_unique<ell>(a->copy());
        else
            o.b = std::make_unique<ell_stable>(b->copy());
        return o;
    }
    void move(const Arr& x)
    {
        if (a)
            a->set_xc(x);
        else
            b->set_xc(x);
    }
    template <typename C>
    std::tuple<CUTStatus, double> cut(const C& c)
    {
        return a ? a->update(c) : b->update(c);
    }
};

struct Spec // how to construct
{
    int kind;  // 0 ell, 1 ell_stable, 2 ell without the deferred scale
    bool par;
    bool diag;
    Arr d, x; // d(0) = alpha unless diag
};
static Obj make(const Spec& s)
{
    Obj o;
    if (s.kind == 1)
    {
        if (s.diag)
            o.b = std::make_unique<ell_stable>(s.d, s.x);
        else
            o.b = std::make_unique<ell_stable>(s.d(0), s.x);
        o.b->use_parallel_cut = s.par;
    }
    else
    {
        if (s.diag)
            o.a = std::make_unique<ell>(s.d, s.x);
        else
            o.a = std::make_unique<ell>(s.d(0), s.x);
        o.a->use_parallel_cut = s.par;
        o.a->no_defer_trick = s.kind == 2;
    }
    return o;
}

static const char* name(CUTStatus s)
{
    return s == CUTStatus::success ? "success" : s == CUTStatus::nosoln ? "nosoln"
        : s == CUTStatus::smallenough                                   ? "smallenough"
                                                                        : "noeffect";
}

class Family
{
  public:
    std::vector<Obj> objs;
    std::string state() const
    {
        std::string r = "[";
        for (auto& o : objs)
            r += std::string(r.size() > 1 ? "," : "") + "{\"x\":" + Ev::list(o.xc()) + ",\"P\":" + Ev::mlist(o.P()) + "}";
        return r + "]";
    }
    Family(const std::vector<Spec>& specs, const std::vector<Arr>& pts)
    {
        std::string st = "[", ps = "[";
        for (auto& s : specs)
        {
            objs.push_back(make(s));
            std::vector<double> d(s.x.size(), s.d(0));
            if (s.diag)
                for (size_t i = 0; i != d.size(); ++i)
                    d[i] = s.d(i);
            st += std::string(st.size() > 1 ? "," : "") + "{\"x\":" + Ev::list(s.x) + ",\"d\":" + Ev::list(d)
                + ",\"par\":" + (s.par ? "true" : "false") + ",\"kind\":" + std::to_string(s.kind) + ",\"kappa\":" + Ev::q(s.diag ? 1. : s.d(0)) + "}";
        }
        for (auto& p : pts)
            ps += std::string(ps.size() > 1 ? "," : "") + Ev::list(p);
        Ev("Begin").raw("starts", st + "]").raw("pts", ps + "]").raw("objs", state()).emit();
    }
    // far is nan: none
    CUTStatus cut(size_t k, const Arr& g, double near, double far, bool array, bool exact)
    {
        Ev e("Cut");
        e.i("k", (long long)k + 1).vec("g", g).num("near", near).b("exact", exact);
        if (std::isnan(far))
            e.str("far", "none");
        else
            e.num("far", far);
        std::tuple<CUTStatus, double> r;
        if (!std::isnan(far))
            r = objs[k].cut(std::make_tuple(g, Arr {near, far}));
        else if (array)
        {
            Arr one = xt::zeros<double>({(size_t)1});
            one(0) = near;
            r = objs[k].cut(std::make_tuple(g, one));
        }
        else
            r = objs[k].cut(std::make_tuple(g, near));
        e.str("verdict", name(std::get<0>(r))).num("tsq", std::get<1>(r)).num("along", objs[k].size(g)).raw("objs", state()).emit();
        return std::get<0>(r);
    }
    void copy(size_t k)
    {
        objs.push_back(objs[k].copy());
        Ev("Copy").i("k", (long long)k + 1).raw("objs", state()).emit();
    }
    void twin(size_t k, size_t j) { Ev("Twin").i("k", (long long)k + 1).i("j", (long long)j + 1).emit(); }
    void move(size_t k, const Arr& x)
    {
        objs[k].move(x);
        Ev("Move").i("k", (long long)k + 1).vec("x", x).raw("objs", state()).emit();
    }
};

static const double NONE = std::nan("");

static std::vector<Arr> sample(vp::Rng& R, const Spec& s, int m)
{
    std::vector<Arr> r;
    const size_t n = s.x.size();
    for (int k = 0; k < m; ++k)
    {
        Arr p = s.x;
        double norm = 0;
        std::vector<double> u(n);
        for (auto& c : u)
        {
            c = R.real(-1, 1);
            norm += c * c;
        }
        const double f = R.chance(.5) ? .9999 : R.unit();
        for (size_t i = 0; i != n; ++i)
            p(i) += u[i] * f / std::sqrt(norm + 1e-300) * std::sqrt(s.diag ? s.d(i) : s.d(0));
        r.push_back(p);
    }
    return r;
}

// near, far in units of tau
static std::pair<double, double> depth(vp::Rng& R, int n, bool pairs, bool thin = false)
{
    if (thin) // a thin slab: central, symmetric or anywhere
    {
        const double w = std::pow(10., R.real(-4.5, -1.4)), v = R.unit();
        if (v < .4)
            return {0., w};
        if (v < .6)
            return {-w / 2, w / 2};
        const double a = R.real(-.8, .8);
        return {a, a + w};
    }
    const double none = -1. / n;
    auto apart = [&](double a, double t) { return std::fabs(a - t) > 1e-5; };
    for (;;)
    {
        const double w = R.unit();
        double a = w < .2 ? 0. : w < .3 ? (R.chance(.5) ? 1 : -1) * std::pow(10., R.real(-8, -1)) : w < .85 ? R.real(none * 1.2, .8) : R.real(-2, 1.5);
        if (!apart(a, 1.) || !apart(a, none) || (a > .93 && a < 1))
            continue;
        if (!pairs)
            return {a, NONE};
        const double v = R.unit();
        double b = v < .12 ? -a : v < .6 ? a + R.real(.05, 1) : v < .75 ? R.real(-1.3, 1.3) : v < .9 ? R.real(1, 3) : 1 - std::pow(10., R.real(-4.9, -1));
        if (v >= .95) // near sides close to where they stop cutting
            a = std::pow(10., R.real(-4.9, -1)) - 1, b = b == 1 ? b : R.real(-.9, .9);
        if (!apart(std::fabs(a), 1.) || !apart(std::fabs(b), 1.) || std::fabs(b - a) < .04)
            continue;
        const double lo = std::max(-1., -b), hi = std::min(1., -a);
        if (std::fabs(hi - lo) < .04 || !apart(n * lo * hi, -1.))
            continue;
        return {a, b};
    }
}

static Arr direction(vp::Rng& R, int n)
{
    Arr g = xt::zeros<double>({(size_t)n});
    const double s = std::pow(10., R.real(-3, 3));
    if (R.chance(.15))
        g((size_t)R.upto(n)) = R.chance(.5) ? s : -s;
    else
        for (int i = 0; i != n; ++i)
            g((size_t)i) = s * R.real(-1, 1) * (R.chance(.1) ? .01 : 1);
    return g;
}
static Spec random_spec(vp::Rng& R, int n, int kind, bool par)
{
    Spec s;
    s.kind = kind;
    s.par = par;
    s.diag = R.chance(.5);
    s.x = xt::zeros<double>({(size_t)n});
    s.d = xt::zeros<double>({(size_t)n});
    const bool far = R.chance(.2);
    const double sc = far ? std::pow(10., (R.chance(.5) ? 1 : -1) * R.real(7, 30)) : std::pow(10., R.real(-4, 5));
    for (size_t i = 0; i != (size_t)n; ++i)
    {
        s.x(i) = R.chance(.3) ? 0. : R.real(-10, 10) * (far ? std::sqrt(sc) : 1.);
        s.d(i) = sc * R.real(.1, 10);
    }
    return s;
}
static bool fine(const Obj& o, const Arr& g, double tsq)
{
    double mass = 0;
    for (size_t i = 0; i != g.size(); ++i)
    {
        Arr e = xt::zeros<double>({g.size()});
        e(i) = 1.;
        mass += std::fabs(g(i)) * std::sqrt(o.size(e));
    }
    return tsq > 1e-5 * mass * mass; // false for nan as well
}

static void history(vp::Rng& R, int n, int len, bool pairs, bool mixed, bool equiv, bool family)
{
    const bool par = !pairs || R.chance(.8);
    const auto s0 = random_spec(R, n, family ? R.upto(3) : 2 * R.upto(2), par);
    const bool axis = equiv && R.chance(.3); // where ell_stable is right
    std::vector<Spec> specs {s0};
    if (equiv)
    {
        specs = {s0, s0, s0};
        for (int k = 0; k < 3; ++k)
            specs[(size_t)k].kind = k;
    }
    if (family)
    {
        specs.push_back(random_spec(R, n, R.upto(3), R.chance(.8)));
        specs.push_back(random_spec(R, n, R.upto(3), R.chance(.8)));
    }
    vp::guarded(60, [&] {
        Family F(specs, family || equiv ? std::vector<Arr> {} : sample(R, s0, 3));
        for (int t = 0; t < len; ++t)
        {
            const size_t k = family ? (size_t)R.upto((int)F.objs.size()) : 0;
            if (family && R.chance(.12) && F.objs.size() < 5)
            {
                F.copy(k);
                for (int m = 1 + R.upto(3); m; --m) // the same cuts for both
                {
                    const size_t j = F.objs.size() - 1;
                    const Arr g = direction(R, n);
                    const double tsq = F.objs[k].size(g);
                    if (!fine(F.objs[k], g, tsq))
                        break;
                    const double tau = std::sqrt(tsq);
                    const auto d = depth(R, n, pairs && R.chance(.6));
                    const bool arr = R.chance(.5);
                    F.cut(k, g, d.first * tau, d.second * tau, arr, false);
                    F.cut(j, g, d.first * tau, d.second * tau, arr, false);
                    F.twin(k, j);
                }
                continue;
            }
            if (family && R.chance(.15))
            {
                Arr x = F.objs[k].xc();
                for (size_t i = 0; i != (size_t)n; ++i)
                    x(i) += R.real(-1, 1);
                F.move(k, x);
                continue;
            }
            Arr g = direction(R, n);
            if (axis)
                for (size_t i = 1; i != (size_t)n; ++i)
                    g(i) = 0.;
            const double tsq = F.objs[k].size(g);
            if (!fine(F.objs[k], g, tsq))
                continue;
            const double tau = std::sqrt(tsq);
            const auto d = depth(R, n, pairs && (!mixed || R.chance(.6)), !mixed && pairs && par && R.chance(.2));
            const bool arr = R.chance(.5);
            for (size_t j = k; j < (equiv ? F.objs.size() : k + 1); ++j)
                F.cut(j, g, d.first * tau, d.second * tau, arr, false);
            if (equiv && t < 60) // later on, rounding has had its way
                Ev("Compare").emit();
        }
        if (R.chance(.5)) // at last a cut that leaves next to nothing
        {
            Arr g = direction(R, n);
            if (axis)
                for (size_t i = 1; i != (size_t)n; ++i)
                    g(i) = 0.;
            const size_t k = family ? (size_t)R.upto((int)F.objs.size()) : 0;
            const double tsq = F.objs[k].size(g);
            if (fine(F.objs[k], g, tsq))
            {
                const double a = (1 - std::pow(10., R.real(-4.9, -1))) * std::sqrt(tsq), far = pairs && R.chance(.3) ? std::sqrt(tsq) * R.real(1.01, 2) : NONE;
                const bool arr = R.chance(.5);
                for (size_t j = k; j < (equiv ? F.objs.size() : k + 1); ++j)
                    F.cut(j, g, a, far, arr, false);
                if (equiv && len <= 60)
                    Ev("Compare").emit();
                return;
            }
        }
        if (pairs && par && !mixed && R.chance(.6)) // at last an equation, which leaves a slice
        {
            const Arr g = direction(R, n);
            const double tsq = F.objs[0].size(g);
            if (fine(F.objs[0], g, tsq))
            {
                const double a = (R.chance(.2) ? 0. : R.real(-.9, .9)) * std::sqrt(tsq);
                F.cut(0, g, a, a, true, false);
            }
        }
    });
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    const bool pairs = a.part == "pair", equiv = a.part == "equiv", family = a.part == "family";
    vp::Rng R(a.seed * 4 + (unsigned)a.part.size());
    size_t no = 0;
    for (auto& t : a.scenarios)
    {
        vp::Cur c(t);
        struct Step
        {
            double g0, g1, near, far;
        };
        c.i();
        std::vector<Step> steps((size_t)c.i());
        for (auto& s : steps)
        {
            c.i();
            s.g0 = c.d();
            s.g1 = c.d();
            s.near = c.d() / 4;
            const double f = c.d();
            s.far = f == 99 ? NONE : f / 4;
        }
        ++no;
        Spec s;
        s.kind = family ? (int)(no % 3) : 2 * (int)(no % 2);
        s.par = no % 11 != 0;
        s.diag = no % 2 == 0;
        const double scale = no % 5 == 0 ? 16. : no % 5 == 1 ? .25 : 1.;
        s.d = Arr {scale, scale};
        s.x = Arr {no % 7 == 0 ? 1.5 : 0., 0.};
        std::vector<Spec> specs {s};
        if (equiv)
        {
            specs = {s, s, s};
            for (int k = 0; k < 3; ++k)
                specs[(size_t)k].kind = k;
        }
        vp::guarded(20, [&] {
            Family F(specs, equiv || family ? std::vector<Arr> {} : sample(R, s, 2));
            bool first = true;
            for (auto& st : steps)
            {
                Arr g {st.g0, st.g1};
                const double tau = std::sqrt(F.objs[0].size(g));
                // exact in floating point as well: powers of two all along
                const bool exact = first && (st.g0 == 0 || st.g1 == 0);
                // past a refused cut the space is as it was
                const double lo = std::isnan(st.far) ? -1. : std::max(-1., -st.far), hi = std::min(1., -st.near);
                // a point cannot be factored
                if (!exact && std::fabs(1 + 2 * lo * hi) < 1e-6 || (!exact || equiv) && std::fabs(hi - lo) < 1e-6)
                    continue;
                CUTStatus r = CUTStatus::noeffect;
                for (size_t j = 0; j != F.objs.size(); ++j)
                    r = F.cut(j, g, st.near * tau, st.far * tau, no % 2 == 1, exact);
                if (equiv)
                    Ev("Compare").emit();
                first = first && r != CUTStatus::success;
            }
        });
    }
    const int rounds = a.thorough ? 150 : 30;
    for (int r = 0; r < rounds; ++r)
    {
        const int n = 2 + r % (a.thorough ? 7 : 5);
        history(R, n, a.thorough ? 80 : 40, pairs || equiv || family, equiv || family, equiv, family);
    }
    // long histories, and many dimensions
    history(R, 2, a.thorough ? 600 : 200, pairs || equiv || family, equiv || family, equiv, family);
    history(R, 12, a.thorough ? 30 : 6, pairs || equiv || family, equiv || family, equiv, family);
    return 0;
}
