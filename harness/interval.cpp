// Recorded histories of the one-dimensional search space (C10).
#include "common.hpp"
#include <ellcpp/cut_config.hpp>
#include <ellcpp/ell1d.hpp>

using vp::Ev;

static const char* name(CUTStatus s)
{
    return s == CUTStatus::success ? "success" : s == CUTStatus::nosoln ? "nosoln"
        : s == CUTStatus::smallenough                                   ? "smallenough"
                                                                        : "noeffect";
}
// on a copy, a cut that no point can satisfy is refused and reports the size
static double radius(const ell1d& e)
{
    ell1d c(e);
    return std::sqrt(std::get<1>(c.update(std::make_tuple(1., 1e200))));
}
static CUTStatus cut(ell1d& e, double g, double beta, bool exact)
{
    const double x0 = e.xc(), r0 = radius(e);
    const auto [st, tsq] = e.update(std::make_tuple(g, beta));
    Ev("Cut").num("g", g).num("beta", beta).b("exact", exact).num("x0", x0).num("r0", r0).str("verdict", name(st)).num("tsq", tsq)
        .num("x", e.xc()).num("r", radius(e)).emit();
    return st;
}
static ell1d begin(double lo, double hi)
{
    ell1d e(lo, hi);
    Ev("Begin").num("lo", lo).num("hi", hi).num("x", e.xc()).num("r", radius(e)).emit();
    return ell1d(e);
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    size_t no = 0;
    for (auto& t : a.scenarios)
    {
        vp::Cur c(t);
        const double s = ++no % 3 == 0 ? 8. : no % 3 == 1 ? 1. : .125;
        vp::guarded(10, [&] {
            ell1d e(begin(-2 * s, 6 * s));
            c.i();
            for (auto n = c.i(); n > 0; --n)
            {
                c.i();
                const double g = c.d() * (no % 2 ? 4. : .5);
                const double k = c.d();
                cut(e, g, k / 4 * radius(e) * std::fabs(g), true);
            }
        });
    }
    vp::Rng R(a.seed);
    const int rounds = a.thorough ? 2000 : 150;
    for (int r = 0; r < rounds; ++r)
        vp::guarded(10, [&] {
            const bool far = R.chance(.15);
            const double s = far ? std::pow(10., (R.chance(.5) ? 1 : -1) * R.real(6, 30)) : std::pow(10., R.real(-3, 5));
            const double lo = R.real(-s, s), hi = lo + R.real(.01, 2) * s;
            const double big = std::max(std::fabs(lo), std::fabs(hi));
            ell1d e(begin(lo, hi));
            for (int k = 0; k < 40 && radius(e) > 1e-8 * big; ++k)
            {
                const double g = (R.chance(.5) ? 1 : -1) * std::pow(10., far ? R.real(-30, 30) : R.real(-3, 3));
                const double w = R.unit();
                const double d = w < .25 ? 0. : w < .3 ? (R.chance(.5) ? 1 : -1) * std::pow(10., R.real(-12, -2)) : w < .9 ? R.real(-1, .9) : w < .95 ? (R.chance(.5) ? 1 : -1) * (1 + (R.chance(.5) ? 1 : -1) * std::pow(10., R.real(-5, -1))) : R.real(-2, 2);
                if (R.chance(.1))
                {
                    const double x0 = e.xc(), r0 = radius(e);
                    ell1d c(e);
                    c.update(std::make_tuple(g, d * r0));
                    c.set_xc(17.);
                    Ev("Other").num("x0", x0).num("r0", r0).num("x", e.xc()).num("r", radius(e)).emit();
                }
                if (R.chance(.05))
                {
                    const double to = e.xc() + R.real(-1, 1) * radius(e), r0 = radius(e);
                    e.set_xc(to);
                    Ev("Move").num("to", to).num("r0", r0).num("x", e.xc()).num("r", radius(e)).emit();
                }
                cut(e, g, d * radius(e) * std::fabs(g), false);
            }
        });
    return 0;
}
