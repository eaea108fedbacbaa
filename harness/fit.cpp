// Recorded fits of correlation polynomials, with points found by another search (C22).
#include "common.hpp"
#include <algorithm>
#include <functional>
#include <ellcpp/utility.hpp>
#include <xtensor/xarray.hpp>

using vp::Ev;
using Arr = xt::xarray<double, xt::layout_type::row_major>;
using Result = std::tuple<Arr, size_t, bool>;
extern Result lsq_corr_poly2(const Arr&, const Arr&, size_t);
extern Result lsq_corr_poly(const Arr&, const Arr&, size_t);
extern Result mle_corr_poly(const Arr&, const Arr&, size_t);
extern Arr create_2d_sites(size_t, size_t);
extern Arr create_2d_isotropic(const Arr&, size_t);

using Vec = std::vector<double>;
using Mat = std::vector<Vec>;

// eigenvalues of a small symmetric matrix (Jacobi)
static Vec eigen(Mat a)
{
    const size_t n = a.size();
    for (int sweep = 0; sweep < 40; ++sweep)
    {
        double off = 0, all = 0;
        for (size_t i = 0; i != n; ++i)
            for (size_t j = 0; j != n; ++j)
                (i == j ? all : off) += a[i][j] * a[i][j];
        if (off <= 1e-26 * (all + off))
            break;
        for (size_t p = 0; p + 1 < n; ++p)
            for (size_t q = p + 1; q != n; ++q)
            {
                if (a[p][q] == 0.)
                    continue;
                const double th = (a[q][q] - a[p][p]) / (2 * a[p][q]);
                const double t = (th < 0 ? -1. : 1.) / (std::fabs(th) + std::sqrt(th * th + 1));
                const double c = 1 / std::sqrt(t * t + 1), s = t * c;
                for (size_t k = 0; k != n; ++k)
                {
                    const double x = a[k][p], y = a[k][q];
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for (size_t k = 0; k != n; ++k)
                {
                    const double x = a[p][k], y = a[q][k];
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
            }
    }
    Vec r;
    for (size_t i = 0; i != n; ++i)
        r.push_back(a[i][i]);
    std::sort(r.begin(), r.end());
    return r;
}

struct Problem
{
    std::string form;
    Arr s, Y;
    size_t m;
    std::vector<Mat> F;
    Problem(std::string f, Arr s_, Arr Y_, size_t m_) : form {f}, s {s_}, Y {Y_}, m {m_}
    {
        const size_t n = s.shape()[0];
        for (size_t k = 0; k != m; ++k)
        {
            Mat a(n, Vec(n));
            for (size_t i = 0; i != n; ++i)
                for (size_t j = 0; j != n; ++j)
                {
                    double d = 0;
                    for (size_t c = 0; c != s.shape()[1]; ++c)
                        d += (s(i, c) - s(j, c)) * (s(i, c) - s(j, c));
                    a[i][j] = k == 0 ? 1. : std::pow(std::sqrt(d), (double)k);
                }
            F.push_back(a);
        }
    }
    Mat sigma(const Vec& x) const
    {
        const size_t n = F[0].size();
        Mat a(n, Vec(n));
        for (size_t k = 0; k != m; ++k)
            for (size_t i = 0; i != n; ++i)
                for (size_t j = 0; j != n; ++j)
                    a[i][j] += x[k] * F[k][i][j];
        return a;
    }
    double objective(const Vec& x, double mu) const // mu: weight of the barrier
    {
        const size_t n = F[0].size();
        Mat S = sigma(x), E = S, T = S;
        for (size_t i = 0; i != n; ++i)
            for (size_t j = 0; j != n; ++j)
            {
                E[i][j] = Y(i, j) - S[i][j];
                T[i][j] = 2 * Y(i, j) - S[i][j];
            }
        const double room = 4e-4;
        double pen = 0;
        if (form != "free")
        {
            const double lo = eigen(S)[0] - room;
            if (lo <= 0)
                return 1e9 - lo;
            pen -= mu * std::log(lo);
        }
        if (form == "likely")
        {
            const double lo = eigen(T)[0] - room;
            if (lo <= 0)
                return 1e9 - lo;
            pen -= mu * std::log(lo);
            // log det S + tr(S^-1 Y), by elimination
            Mat A = S, B(n, Vec(n));
            for (size_t i = 0; i != n; ++i)
                for (size_t j = 0; j != n; ++j)
                    B[i][j] = Y(i, j);
            double ld = 0, tr = 0;
            for (size_t k = 0; k != n; ++k)
            {
                if (A[k][k] <= 0)
                    return 1e9;
                ld += std::log(A[k][k]);
                for (size_t i = k + 1; i != n; ++i)
                {
                    const double f = A[i][k] / A[k][k];
                    for (size_t j = 0; j != n; ++j)
                    {
                        A[i][j] -= f * A[k][j];
                        B[i][j] -= f * B[k][j];
                    }
                }
            }
            for (size_t k = n; k-- > 0;)
                for (size_t j = 0; j != n; ++j)
                {
                    for (size_t i = k + 1; i != n; ++i)
                        B[k][j] -= A[k][i] * B[i][j];
                    B[k][j] /= A[k][k];
                }
            for (size_t k = 0; k != n; ++k)
                tr += B[k][k];
            return ld + tr + pen;
        }
        const Vec w = eigen(E); // Y may be unsymmetric by rounding only
        return std::max(w.front() * w.front(), w.back() * w.back()) + pen;
    }
};

// random search with steps that grow and shrink
static Vec search(const Problem& p, Vec x, vp::Rng& R, int steps, double mu)
{
    double best = p.objective(x, mu), h = .3;
    for (int k = 0; k < steps; ++k)
    {
        Vec y = x;
        if (R.chance(.4))
            y[(size_t)R.upto((int)x.size())] += h * R.real(-1., 1.);
        else
            for (auto& v : y)
                v += h * R.real(-1., 1.);
        const double f = p.objective(y, mu);
        if (f < best)
        {
            best = f;
            x = y;
            h *= 1.6;
        }
        else
            h = std::max(h * .93, 1e-5);
    }
    return x;
}

static void fit(const Problem& p, vp::Rng& R)
{
    vp::guarded(60, [&] {
        auto run = [&] { return p.form == "least" ? lsq_corr_poly2(p.Y, p.s, p.m) : p.form == "free" ? lsq_corr_poly(p.Y, p.s, p.m) : mle_corr_poly(p.Y, p.s, p.m); };
        const auto r = run();
        const Arr& x = std::get<0>(r);
        const bool ok = std::get<2>(r);
        const auto q = run();
        const bool again = std::get<1>(q) == std::get<1>(r) && std::get<2>(q) == ok && (!ok || std::get<0>(q) == x);
        std::vector<Vec> ys;
        const bool big = p.s.shape()[0] > 6;
        auto from = [&](Vec y) {
            y = search(p, y, R, big ? 60 : 250, 1e-2);
            ys.push_back(y);
            y = search(p, y, R, big ? 60 : 400, 1e-5);
            ys.push_back(y);
        };
        if (ok && x.size() == p.m)
        {
            Vec v(x.begin(), x.end());
            from(v);
            from(v);
        }
        Vec c(p.m, 0.);
        c[0] = p.form == "free" ? 0. : 4.;
        for (int k = 0; k < (big ? 1 : 3); ++k)
        {
            Vec v = c;
            for (auto& t : v)
                t += R.real(-1., 1.) * (p.form == "free" ? .5 : 2.);
            if (p.form != "free" && k < 2)
                for (size_t i = 1; i != p.m; ++i)
                    v[i] = i == 1 ? -.3 : 0.;
            if (p.form == "likely" && k == 0)
                for (auto& t : v)
                    t *= .1;
            from(v);
        }
        std::string s = "[";
        for (auto& y : ys)
            s += (s.size() > 1 ? "," : "") + Ev::list(y);
        Ev("Fit").str("form", p.form).raw("s", Ev::mlist(p.s)).raw("Y", Ev::mlist(p.Y)).i("m", (long long)p.m).emit();
        Ev("Result").raw("x", ok ? Ev::list(x) : "[]").b("ok", ok).i("iters", (long long)std::get<1>(r)).b("again", again).raw("ys", s + "]").emit();
    });
}

static void sites(int nx, int ny)
{
    vp::guarded(10, [&] {
        Ev("Sites").i("nx", nx).i("ny", ny).raw("s", Ev::mlist(create_2d_sites((size_t)nx, (size_t)ny))).emit();
    });
}
static void data(const Arr& s, int N)
{
    vp::guarded(20, [&] {
        const Arr Y = create_2d_isotropic(s, (size_t)N);
        const Arr Z = create_2d_isotropic(s, (size_t)N);
        Ev("Data").raw("s", Ev::mlist(s)).i("N", N).raw("Y", Ev::mlist(Y)).b("again", Y == Z).emit();
    });
}

static Arr draw_sites(vp::Rng& R, int n, int d, double lo)
{
    Arr s = xt::zeros<double>({(size_t)n, (size_t)d});
    for (;;)
    {
        const int grain = R.pick<int>({1, 2, 8, 1000});
        for (auto& v : s)
            v = R.range(0, 6 * grain) / (double)grain;
        bool ok = true;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < i; ++j)
            {
                double q = 0;
                for (int k = 0; k < d; ++k)
                    q += (s(i, k) - s(j, k)) * (s(i, k) - s(j, k));
                ok &= q >= lo * lo;
            }
        if (ok)
            return s;
    }
}
static Arr draw_data(vp::Rng& R, const Arr& s)
{
    const size_t n = s.shape()[0];
    const size_t rank = R.chance(.08) && n > 2 ? n - 1 : n;
    std::vector<Vec> B(n, Vec(rank));
    for (auto& r : B)
        for (auto& v : r)
            v = R.real(-1.5, 1.5);
    Arr Y = xt::zeros<double>({n, n});
    const int kind = R.upto(4);
    for (size_t i = 0; i != n; ++i)
        for (size_t j = 0; j <= i; ++j)
        {
            double v = 0, q = 0;
            for (size_t k = 0; k != rank; ++k)
                v += B[i][k] * B[j][k];
            for (size_t k = 0; k != s.shape()[1]; ++k)
                q += (s(i, k) - s(j, k)) * (s(i, k) - s(j, k));
            if (kind == 0 && i == j)
                v += .3;
            if (kind >= 2)
                v = (kind == 2 ? .3 : .05) * v + 2 * std::exp(-.3 * std::sqrt(q));
            Y(i, j) = Y(j, i) = v;
        }
    return Y;
}

static Arr cmat(vp::Cur& c)
{
    const size_t n = (size_t)c.i();
    std::vector<Vec> r;
    for (size_t i = 0; i != n; ++i)
    {
        r.emplace_back((size_t)c.i());
        for (auto& v : r.back())
            v = c.d();
    }
    Arr a = xt::zeros<double>({n, r[0].size()});
    for (size_t i = 0; i != n; ++i)
        for (size_t j = 0; j != r[0].size(); ++j)
            a(i, j) = r[i][j];
    return a;
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    vp::Rng R(a.seed + 22);
    int k = 0;
    for (auto& t : a.scenarios)
    {
        if (k++ % 6 == 0)
            Ev("Begin").emit();
        vp::Cur c(t);
        const auto form = c.s();
        const Arr s = cmat(c), Y = cmat(c);
        const auto m = (size_t)c.i();
        fit({form, s, Y, m}, R);
        if (form == "least")
            fit({"free", s, Y, m}, R);
    }
    for (int r = 0; r < (a.thorough ? 400 : 36); ++r)
    {
        Ev("Begin").emit();
        const bool big = r % 12 == 11;
        const Arr s = draw_sites(R, big ? R.range(7, 10) : R.range(2, 5), R.pick<int>({1, 2, 2, 3}), .4);
        const Arr Y = draw_data(R, s);
        const auto m = (size_t)(big ? 2 : R.range(2, 4));
        fit({"least", s, Y, m}, R);
        fit({"likely", s, Y, m}, R);
        fit({"free", s, Arr(Y * R.pick<double>({.02, .05, .1, .3})), m}, R);
    }
    Ev("Begin").emit();
    for (int nx = 1; nx <= (a.thorough ? 12 : 6); ++nx)
        for (int ny = 1; ny <= (a.thorough ? 12 : 6); ++ny)
            sites(nx, ny);
    sites(10, 8);
    Ev("Begin").emit();
    for (int r = 0; r < (a.thorough ? 60 : 12); ++r)
        data(r % 3 == 0 ? create_2d_sites((size_t)R.range(1, 4), (size_t)R.range(1, 3)) : draw_sites(R, R.range(2, 8), R.range(1, 2), .3), R.pick<int>({1, 10, 100, 1000, 3000}));
    return 0;
}
