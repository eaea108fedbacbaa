// Replays scenarios of spec/CuttingPlane into the real drivers, with a mock
// oracle and a mock search space that record every call (C01, C02, C03).
#include "common.hpp"
#include <ellcpp/cutting_plane.hpp>
#include <optional>
#include <tuple>

using vp::Ev;

struct Pt
{
    int id = -1;
};
struct Cut
{
    int id;
};
struct Step
{
    bool cut, shrunk, alt;
    std::string verdict;
    double tsq;
};
static const char* name(CUTStatus s)
{
    switch (s)
    {
        case CUTStatus::success: return "success";
        case CUTStatus::nosoln: return "nosoln";
        case CUTStatus::smallenough: return "smallenough";
        case CUTStatus::noeffect: return "noeffect";
    }
    return "?";
}
static CUTStatus verdict(const std::string& s)
{
    return s == "success" ? CUTStatus::success
        : s == "nosoln"   ? CUTStatus::nosoln
                          : CUTStatus::noeffect;
}

struct World
{
    std::vector<Step> script;
    size_t asked = 0, applied = 0, limit = 0;
    int centre = 0;
    int cuts = 0;
    bool shrinking_last = false;

    const Step& step(size_t k) const
    {
        static const Step dflt {true, false, false, "success", 1.0};
        return k < script.size() ? script[k] : dflt;
    }
};

struct Space
{
    World& w;
    explicit Space(World& w_) : w {w_} { }
    Pt xc() const { return Pt {w.centre}; }
    std::tuple<CUTStatus, double> update(const Cut& c)
    {
        const auto& s = w.step(w.applied++);
        if (w.applied > w.limit + 8)
            throw vp::Overrun();
        if (s.verdict == "success")
            ++w.centre;
        Ev("Apply").i("c", c.id).str("verdict", s.verdict).num("tsq", s.tsq).i("x", w.centre).emit();
        return {verdict(s.verdict), s.tsq};
    }
};

struct FeasOracle
{
    World& w;
    std::optional<Cut> operator()(const Pt& x)
    {
        const auto& s = w.step(w.asked++);
        if (w.asked > w.limit + 8)
            throw vp::Overrun();
        const int id = s.cut ? ++w.cuts : -1;
        Ev("Ask").i("x", x.id).num("v", 0).b("r", false).i("cut", id).num("nv", 0).i("x0", -1)
            .b("shrunk", false).b("alt", false).emit();
        if (!s.cut)
            return {};
        return Cut {id};
    }
};
struct DcOracle
{
    World& w;
    template <typename T>
    std::tuple<Cut, bool> operator()(const Pt& x, T& t)
    {
        const auto& s = w.step(w.asked++);
        if (w.asked > w.limit + 8)
            throw vp::Overrun();
        const auto old = t;
        if (s.shrunk)
            t -= 1;
        const int id = ++w.cuts;
        Ev("Ask").i("x", x.id).num("v", double(old)).b("r", false).i("cut", id).num("nv", double(t))
            .i("x0", -1).b("shrunk", s.shrunk).b("alt", false).emit();
        return {Cut {id}, s.shrunk};
    }
};
struct QOracle
{
    World& w;
    template <typename T>
    std::tuple<Cut, Pt, bool, bool> operator()(const Pt& x, T& t, bool retry)
    {
        const auto& s = w.step(w.asked++);
        if (w.asked > w.limit + 8)
            throw vp::Overrun();
        const auto old = t;
        if (s.shrunk)
            t -= 1;
        const int id = ++w.cuts;
        const int x0 = 1000 + (int)w.asked;
        Ev("Ask").i("x", x.id).num("v", double(old)).b("r", retry).i("cut", id).num("nv", double(t))
            .i("x0", x0).b("shrunk", s.shrunk).b("alt", s.alt).emit();
        return {Cut {id}, Pt {x0}, s.shrunk, s.alt};
    }
};

template <typename T>
static void run(const std::string& mode, unsigned maxit, double tol, std::vector<Step> script, T t0, bool defaults)
{
    World w;
    w.script = std::move(script);
    w.limit = maxit;
    Options o;
    if (!defaults)
    {
        o.max_it = maxit;
        o.tol = tol;
    }
    Ev("Begin").str("mode", mode).i("maxit", maxit).num("tol", tol).num("v", double(t0)).i("x", 0).emit();
    Space S(w);
    T t = t0;
    auto fin = [&](const CInfo& c, int best)
    {
        Ev("Finish").b("feasible", c.feasible).i("iters", (long long)c.num_iters).str("status", name(c.status))
            .i("best", best).num("v", double(t)).emit();
    };
    vp::guarded(20, [&] {
        if (mode == "feas")
        {
            FeasOracle P {w};
            const auto c = defaults ? cutting_plane_feas(P, S) : cutting_plane_feas(P, S, o);
            fin(c, w.centre);
        }
        else if (mode == "dc")
        {
            DcOracle P {w};
            auto r = defaults ? cutting_plane_dc(P, S, t) : cutting_plane_dc(P, S, t, o);
            fin(std::get<1>(r), std::get<0>(r).id);
        }
        else
        {
            QOracle P {w};
            auto r = defaults ? cutting_plane_q(P, S, t) : cutting_plane_q(P, S, t, o);
            fin(std::get<1>(r), std::get<0>(r).id);
        }
    });
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    const std::string mode = a.part;
    const double tols[] = {1e-8, 1e-3, 0.5, 1e-12};
    size_t k = 0;
    auto size = [&](bool small, double tol, size_t i)
    {
        // below the tolerance, exactly at it, just above it, far above it
        if (small)
            return i % 2 ? tol * 0.5 : std::nextafter(tol, 0.);
        return i % 3 == 0 ? tol : i % 3 == 1 ? std::nextafter(tol, 1.) : tol * 7;
    };
    for (auto& t : a.scenarios)
    {
        vp::Cur c(t);
        const auto m = c.s();
        const auto maxit = (unsigned)c.i();
        const double tol = tols[k % 4];
        std::vector<Step> script;
        for (auto n = c.i(); n > 0; --n)
        {
            c.i(); // length of the step
            Step s;
            s.cut = c.b();
            s.shrunk = c.b();
            s.alt = c.b();
            s.verdict = c.s();
            s.tsq = size(c.b(), tol, k + script.size());
            script.push_back(s);
        }
        if (k++ % 2)
            run<int>(m, maxit, tol, script, 10, false);
        else
            run<double>(m, maxit, tol, script, 10., false);
    }
    // long seeded histories
    vp::Rng R(a.seed);
    const int n = a.thorough ? 1500 : 120;
    for (int r = 0; r < n; ++r)
    {
        const bool defaults = r % 40 == 7;
        const double tol = defaults ? 1e-8 : tols[R.upto(4)];
        const unsigned maxit = defaults ? 2000 : (unsigned)R.range(0, 60);
        std::vector<Step> script;
        const int len = defaults ? (R.chance(.3) ? 2100 : R.range(1, 200)) : R.range(0, 70);
        const double stop = R.chance(.5) ? 0. : .05;
        for (int i = 0; i < len; ++i)
        {
            Step s {true, R.chance(.3), R.chance(.8), "success", 1.};
            if (mode == "q" && R.chance(.3))
                s.verdict = "noeffect";
            if (R.chance(stop))
                s.verdict = R.chance(.5) ? "nosoln" : "noeffect";
            if (R.chance(stop))
                s.cut = mode != "feas";
            s.tsq = size(R.chance(stop), tol, (size_t)R.upto(6));
            script.push_back(s);
        }
        run<double>(mode, maxit, tol, script, R.chance(.5) ? 1e100 / 1e90 : -3., defaults);
    }
    return 0;
}
