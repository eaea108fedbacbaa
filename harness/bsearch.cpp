// Recorded runs of the binary search (C04).
#include "common.hpp"
#include <ellcpp/cutting_plane.hpp>

using vp::Ev;

static const char* name(CUTStatus s)
{
    return s == CUTStatus::success ? "success" : s == CUTStatus::nosoln ? "nosoln"
        : s == CUTStatus::smallenough                                   ? "smallenough"
                                                                        : "noeffect";
}

// thr = nan: random answers
template <typename T>
static void run(T lo, T hi, double thr, unsigned maxit, double tol, bool rvalue, uint64_t seed, bool defaults = false)
{
    Options o;
    if (!defaults)
    {
        o.max_it = maxit;
        o.tol = tol;
    }
    vp::Rng R(seed);
    Ev b("Begin");
    b.str("kind", std::is_integral<T>::value ? "int" : "real").num("lo", double(lo)).num("hi", double(hi)).num("tol", o.tol).i("maxit", o.max_it);
    if (std::isnan(thr))
        b.str("thr", "none");
    else
        b.num("thr", thr);
    b.emit();
    unsigned n = 0;
    auto P = [&](const T& t) -> bool
    {
        if (++n > o.max_it + 5u)
            throw vp::Overrun();
        const bool yes = std::isnan(thr) ? R.chance(.5) : double(t) >= thr;
        Ev("Ask").num("t", double(t)).b("yes", yes).emit();
        return yes;
    };
    vp::guarded(20, [&] {
        if (rvalue)
        {
            const auto c = defaults ? bsearch(P, std::make_pair(lo, hi)) : bsearch(P, std::make_pair(lo, hi), o);
            Ev("Finish").b("feasible", c.feasible).i("iters", (long long)c.num_iters).str("status", name(c.status))
                .str("lo", "?").str("hi", "?").emit();
        }
        else
        {
            auto I = std::make_pair(lo, hi);
            const auto c = defaults ? bsearch(P, I) : bsearch(P, I, o);
            Ev("Finish").b("feasible", c.feasible).i("iters", (long long)c.num_iters).str("status", name(c.status))
                .num("lo", double(I.first)).num("hi", double(I.second)).emit();
        }
    });
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    uint64_t k = 0;
    for (auto& t : a.scenarios)
    {
        vp::Cur c(t);
        const auto kind = c.s();
        const double lo = c.d(), hi = c.d(), thr = c.d();
        const auto maxit = (unsigned)c.i();
        const double tol = c.d();
        ++k;
        if (kind == "real")
            run<double>(lo, hi, thr, maxit, tol, k % 9 == 0, k);
        else if (k % 3 == 0)
            run<long long>((long long)lo, (long long)hi, thr, maxit, tol, false, k);
        else
            run<int>((int)lo, (int)hi, thr, maxit, tol, k % 9 == 0, k);
    }
    vp::Rng R(a.seed);
    const int n = a.thorough ? 3000 : 250;
    const double inf = std::nan("");
    for (int r = 0; r < n; ++r)
    {
        const unsigned maxit = R.chance(.3) ? (unsigned)R.range(0, 12) : 2000;
        const double tol = std::pow(10., -R.range(0, 10));
        const bool noisy = R.chance(.25);
        if (R.chance(.4))
        {
            const int lo = R.range(-1000000, 1000000), hi = lo + R.range(0, 1000000) / (R.chance(.5) ? 1 : 50000);
            run<int>(lo, hi, noisy ? inf : R.range(lo - 2, hi + 2), maxit, tol, R.chance(.1), R.next());
        }
        else
        {
            const double s = std::pow(10., R.range(-3, 6));
            const double lo = R.real(-s, s), hi = lo + R.real(0, 2 * s);
            run<double>(lo, hi, noisy ? inf : R.real(lo - .1 * s, hi + .1 * s), maxit, tol * (R.chance(.5) ? s : 1), R.chance(.1), R.next(), R.chance(.1));
        }
    }
    // wide brackets: the width must not be halved through an overflow
    run<int>(0, 2147483647, 1234567890., 2000, 1e-8, false, 1);
    run<int>(0, 2147483647, 2147483647., 2000, 1e-8, false, 1);
    run<long long>(0, 2147483647LL * 2, 3e9, 2000, 1e-8, false, 1);
    run<unsigned>(0u, 4000000000u, 3999999999., 2000, 1e-8, false, 1);
    return 0;
}
