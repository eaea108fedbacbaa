// Recorded queries to the filter oracle (C18).
#include "common.hpp"
#include <algorithm>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/oracles/lowpass_oracle.hpp>

using vp::Ev;
using Arr = xt::xarray<double, xt::layout_type::row_major>;
using ParallelCut = std::tuple<Arr, Arr>;

struct Bands
{
    Arr Ap, As, Anr;
    double L, U;
};

static void begin(const Bands& b)
{
    auto rows = [](const Arr& m) { return m.shape()[0] ? Ev::mlist(m) : std::string("[]"); };
    Ev("Begin").raw("Ap", rows(b.Ap)).raw("As", rows(b.As)).raw("Anr", rows(b.Anr)).num("L", b.L).num("U", b.U).emit();
}

// passes questions on and records the answers
struct Recorder
{
    lowpass_oracle& O;
    bool exact;
    int limit = 1000000;
    auto operator()(const Arr& x, double& best)
    {
        if (--limit < 0)
            throw vp::Overrun();
        const double before = best;
        auto r = O(x, best);
        auto& [cut, improved] = r;
        auto& [g, f] = cut;
        Ev("Ask").vec("x", x).num("best", before).num("after", best).b("improved", improved).vec("g", g).vec("f", f).b("exact", exact).emit();
        return r;
    }
};

static Arr cmat(vp::Cur& c, size_t n)
{
    const size_t m = (size_t)c.i();
    Arr a = xt::zeros<double>({m, n});
    for (size_t i = 0; i != m; ++i)
    {
        c.i();
        for (size_t j = 0; j != n; ++j)
            a(i, j) = c.d();
    }
    return a;
}

// a point just past one constraint, the others being met: from c along d
static bool past_one(const Bands& b, double best, const Arr& c, const Arr& d, double share, Arr& y)
{
    std::vector<double> at;
    auto cross = [&](double v, double w, double lo, double hi) {
        if (w < 0)
            at.push_back((lo - v) / w);
        else if (w > 0 && hi < 1e300)
            at.push_back((hi - v) / w);
    };
    auto rows = [&](const Arr& A, double lo, double hi) {
        for (size_t i = 0; i != A.shape()[0]; ++i)
        {
            double v = 0, w = 0;
            for (size_t j = 0; j != c.size(); ++j)
            {
                v += A(i, j) * c(j);
                w += A(i, j) * d(j);
            }
            cross(v, w, lo, hi);
        }
    };
    cross(c(0), d(0), 0, 1e301);
    rows(b.Ap, b.L, b.U);
    rows(b.As, 0, best);
    rows(b.Anr, 0, 1e301);
    std::sort(at.begin(), at.end());
    if (at.empty() || at[0] <= 0)
        return false;
    const double s = at.size() == 1 ? at[0] * 1.5 : at[0] + share * (at[1] - at[0]);
    for (size_t j = 0; j != c.size(); ++j)
        y(j) = c(j) + s * d(j);
    return true;
}

// every constraint in turn is the one that is violated
static void one_by_one(vp::Rng& R, const Bands& b, lowpass_oracle& O, Recorder& rec, double best, const Arr& c, int rounds)
{
    const size_t N = c.size(), total = b.Ap.shape()[0] + b.As.shape()[0] + b.Anr.shape()[0];
    Arr y = c;
    for (int q = 0; q < rounds; ++q)
        for (size_t k = 0; k != total + 1; ++k)
        {
            const size_t p = b.Ap.shape()[0], s = p + b.As.shape()[0];
            const Arr& A = k < p ? b.Ap : k < s ? b.As : b.Anr;
            const size_t i = k < p ? k : k < s ? k - p : k - s;
            Arr d = xt::zeros<double>({N});
            if (k == total) // the first coefficient
            {
                d(0) = -1;
                for (size_t j = 1; j != N; ++j)
                    d(j) = .01 * R.real(-1, 1);
                if (past_one(b, best, c, d, R.pick(std::vector<double> {.02, .5, .95, 1e-6, 1e-9}), y))
                {
                    double t = best;
                    rec(y, t);
                }
                continue;
            }
            const double sg = k >= s || R.chance(.5) ? -1 : 1, noise = R.pick(std::vector<double> {0, .2, 1, 2});
            for (size_t j = 0; j != N; ++j)
                d(j) = sg * A(i, j) + noise * R.real(-1, 1);
            if (past_one(b, best, c, d, R.pick(std::vector<double> {.02, .5, .95, 1e-6, 1e-9}), y))
            {
                double t = best;
                rec(y, t);
            }
        }
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    for (auto& line : a.scenarios)
    {
        vp::Cur c(line);
        Bands b;
        b.Ap = cmat(c, 2);
        b.As = cmat(c, 2);
        b.Anr = cmat(c, 2);
        b.L = c.d();
        b.U = c.d();
        double best = c.d();
        begin(b);
        vp::guarded(10, [&] {
            lowpass_oracle O(b.Ap, b.As, b.Anr, b.L, b.U);
            Recorder rec {O, true};
            for (auto k = c.i(); k > 0; --k)
            {
                c.i();
                Arr x = xt::zeros<double>({2});
                x(0) = c.d();
                x(1) = c.d();
                rec(x, best);
            }
        });
    }
    vp::Rng R(a.seed + 18);
    for (int r = 0; r < (a.thorough ? 400 : 40); ++r)
    {
        // cosine rows, as for a real filter
        const bool big = r % 40 == 39;
        const size_t N = (size_t)(big ? R.range(13, 20) : R.range(2, a.thorough ? 12 : 7));
        const int m = big ? R.range(40, 80) : R.range(6, a.thorough ? 60 : 24);
        const double wp = R.real(.1, .4), ws = wp + R.real(.05, .3);
        Bands b;
        std::vector<double> P, S, Q;
        for (int k = 0; k < m; ++k)
        {
            const double w = (double)k / (m - 1);
            (w <= wp ? P : w >= ws ? S : Q).push_back(w * 3.14159265358979323846);
        }
        if (R.chance(.1))
            Q.clear();
        if (R.chance(.05))
            P.clear();
        auto fill = [&](const std::vector<double>& ws_) {
            Arr A = xt::zeros<double>({ws_.size(), N});
            for (size_t i = 0; i != ws_.size(); ++i)
                for (size_t j = 0; j != N; ++j)
                    A(i, j) = j ? 2 * std::cos((double)j * ws_[i]) : 1.;
            return A;
        };
        b.Ap = fill(P);
        b.As = fill(S);
        b.Anr = fill(Q);
        const double ripple = R.pick(std::vector<double> {.05, .2, .5});
        b.L = (1 - ripple) * (1 - ripple);
        b.U = (1 + ripple) * (1 + ripple);
        begin(b);
        vp::guarded(60, [&] {
            lowpass_oracle O(b.Ap, b.As, b.Anr, b.L, b.U);
            Recorder rec {O, false, a.thorough ? 400 : 90};
            double best = R.pick(std::vector<double> {.01, .1, .3, 1});
            Arr x = xt::zeros<double>({N});
            if (R.chance(.7)) // what a real run asks
            {
                ell E {R.pick(std::vector<double> {4., 40.}), x};
                E.use_parallel_cut = R.chance(.7);
                CInfo info {};
                (void)info;
                Options opt;
                opt.max_it = a.thorough ? 300 : 80;
                opt.tol = 1e-8;
                double t = best;
                std::tuple<Arr, CInfo> got = cutting_plane_dc(rec, E, t, opt);
                x = std::get<0>(got);
                if (x.size() != N)
                    x = xt::zeros<double>({N});
                best = R.pick(std::vector<double> {t, 2 * t, best});
            }
            if (best > 0 && R.chance(.6))
            {
                double t = 1e30; // a design, with room for a value
                rec.limit = 1000;
                auto c = x;
                rec(c, t);
                if (t < 1e29)
                    one_by_one(R, b, O, rec, t * 1.5 + 1e-3, c, 1);
            }
            // and what none would
            rec.limit = 1000;
            for (int q = R.range(2, a.thorough ? 25 : 9); q > 0; --q)
            {
                Arr y = x;
                const double rad = R.pick(std::vector<double> {0, 1e-3, .02, .2, 1});
                for (auto& v : y)
                    v += rad * R.real(-1, 1);
                if (R.chance(.1))
                    y(0) = -y(0);
                if (R.chance(.3))
                    best = R.pick(std::vector<double> {1e-3, .05, .2, 1, 3});
                rec(y, best);
            }
        });
    }
    // any rows around a known design
    for (int r = 0; r < (a.thorough ? 600 : 60); ++r)
    {
        const size_t N = (size_t)R.range(2, 7);
        Bands b;
        b.L = R.real(.1, 1);
        b.U = b.L + R.real(.2, 1);
        Arr c = xt::zeros<double>({N});
        for (auto& v : c)
            v = R.real(-1, 1);
        c(0) = R.real(.2, 1);
        const size_t own = R.chance(.7) ? 0 : 1;
        if (own)
        {
            c(1) = R.real(.2, 1);
            c(0) = .001;
        }
        const double best = R.real(.2, 1);
        auto fill = [&](size_t m, double lo, double hi) {
            Arr A = xt::zeros<double>({m, N});
            for (size_t i = 0; i != m; ++i)
            {
                double v = 0;
                for (size_t j = 0; j != N; ++j)
                {
                    A(i, j) = R.real(-1, 1);
                    v += j != own ? A(i, j) * c(j) : 0;
                }
                A(i, own) = (R.real(lo + .05, hi - .05) - v) / c(own);
                if (i && R.chance(.35)) // nearly the same row again
                {
                    const double e = R.pick(std::vector<double> {0, 1e-8, 1e-8, 1e-6, 1e-3});
                    for (size_t j = 0; j != N; ++j)
                        A(i, j) = A(i - 1, j) + e * R.real(-1, 1);
                }
            }
            return A;
        };
        b.Ap = fill((size_t)R.range(0, 6), b.L, b.U);
        b.As = fill((size_t)R.range(1, 6), 0, best);
        b.Anr = fill((size_t)R.range(0, 6), 0, 2);
        begin(b);
        vp::guarded(60, [&] {
            lowpass_oracle O(b.Ap, b.As, b.Anr, b.L, b.U);
            Recorder rec {O, false};
            one_by_one(R, b, O, rec, best, c, 2);
            double t = best;
            rec(c, t);
            one_by_one(R, b, O, rec, t * 1.01, c, 1);
        });
    }
    return 0;
}
