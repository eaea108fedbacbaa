// Recorded factorizations (C15).
#include "common.hpp"
#include <ellcpp/oracles/ldlt_ext.hpp>

using vp::Ev;
using Arr = xt::xarray<double, xt::layout_type::row_major>;

static Arr mat(size_t n) { return xt::zeros<double>({n, n}); }

struct Job
{
    Arr A;
    bool semi = false, lazy = false, twice = false;
    std::string exact = "no";
    std::vector<Arr> others;
};

static void factor(ldlt_ext& Q, const Job& j)
{
    size_t rows = 0;
    long calls = 0;
    auto get = [&](size_t i, size_t k) -> double
    {
        if (++calls > 100000 || i >= j.A.shape()[0] || k >= j.A.shape()[0])
            throw vp::Overrun();
        rows = std::max(rows, std::max(i, k) + 1);
        return j.A(i, k);
    };
    bool ret;
    if (j.semi)
        ret = Q.template factor<decltype(get)&, true>(get);
    else if (j.lazy)
        ret = Q.factor(get);
    else
        ret = Q.factorize(j.A);
    Ev("Factor").mat("A", j.A).b("semi", j.semi).str("exact", j.exact).b("ret", ret).b("spd", Q.is_spd()).i("start", (long long)Q.p.first)
        .i("stop", (long long)Q.p.second).i("rows", (long long)rows).emit();
    if (!ret)
    {
        for (int k = 0; k < (j.twice ? 2 : 1); ++k)
        {
            const double ep = Q.witness();
            const double quad = Q.sym_quad(j.A);
            Ev("Witness").num("ep", ep).vec("v", Q.v).num("quad", quad).emit();
        }
        for (auto& m : j.others)
            Ev("Quad").mat("M", m).num("q", Q.sym_quad(m)).emit();
    }
    else if (!j.semi)
        Ev("Sqrt").mat("R", Q.sqrt()).emit();
}

static Arr exact_matrix(vp::Rng& R, size_t n)
{
    std::vector<std::vector<double>> L(n, std::vector<double>(n, 0.));
    std::vector<double> D(n);
    const double scale = std::exp2(R.chance(.6) ? 0 : R.chance(.5) ? R.range(-40, 40) : R.range(-90, 90));
    const bool good = R.chance(.3);
    const size_t tiny = R.chance(.15) ? (size_t)R.upto((int)n) : n; // a pivot next to nothing in front of the rest
    const int deep = R.range(8, 36);
    for (size_t i = 0; i != n; ++i)
    {
        L[i][i] = 1;
        for (size_t k = 0; k != i; ++k)
            L[i][k] = R.range(-2, 2) * (k == tiny ? std::exp2(deep) : 1);
        const int c = R.upto(12);
        D[i] = (good || c > 3 ? 1 : c == 0 ? -1 : c < 3 ? 0 : -0.25) * std::exp2(R.range(-2, 3)) * scale;
        if (tiny == n && R.chance(.05))
            D[i] = std::exp2(-30) * scale;
        if (i == tiny)
            D[i] = std::exp2(-deep) * scale;
    }
    Arr A = mat(n);
    for (size_t i = 0; i != n; ++i)
        for (size_t j = 0; j != n; ++j)
            for (size_t k = 0; k <= std::min(i, j); ++k)
                A(i, j) += L[i][k] * D[k] * L[j][k];
    return A;
}

static Arr random_matrix(vp::Rng& R, size_t n)
{
    Arr A = mat(n);
    const double s = R.pick(std::vector<double> {1, 1, 1e-7, 1e5});
    const double shift = R.pick(std::vector<double> {-1, 0, 1, 2, (double)n, 2. * (double)n});
    for (size_t i = 0; i != n; ++i)
    {
        for (size_t j = 0; j != i; ++j)
            A(i, j) = A(j, i) = s * R.real(-1, 1);
        A(i, i) = s * (R.real(-1, 1) + shift);
    }
    if (R.chance(.3)) // a Gram matrix, sometimes not of full rank
    {
        const size_t r = (size_t)R.range(1, (int)n + 1);
        Arr B = xt::zeros<double>({n, r});
        for (auto& x : B)
            x = R.real(-1, 1);
        for (size_t i = 0; i != n; ++i)
            for (size_t j = 0; j <= i; ++j)
            {
                double d = 0;
                for (size_t k = 0; k != r; ++k)
                    d += B(i, k) * B(j, k);
                A(i, j) = A(j, i) = s * d;
            }
    }
    return A;
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    size_t k = 0;
    const size_t batch = 6; // that many on one object
    while (k < a.scenarios.size())
    {
        size_t n = 0;
        std::vector<Job> jobs;
        for (; k < a.scenarios.size() && jobs.size() < batch; ++k)
        {
            vp::Cur c(a.scenarios[k]);
            const size_t m = (size_t)c.i();
            if (!jobs.empty() && m != n)
            {
                c.drop();
                break;
            }
            n = m;
            Job j;
            j.semi = c.b();
            j.A = mat(n);
            c.i();
            for (size_t r = 0; r != n; ++r)
            {
                c.i();
                for (size_t q = 0; q != n; ++q)
                    j.A(r, q) = c.d();
            }
            j.exact = "small";
            j.lazy = k % 2;
            j.twice = k % 7 == 0;
            jobs.push_back(j);
        }
        Ev("Begin").i("n", (long long)n).emit();
        vp::guarded(10, [&] {
            ldlt_ext Q(n);
            for (auto& j : jobs)
                factor(Q, j);
        });
    }
    vp::Rng R(a.seed + 3);
    for (int r = 0; r < (a.thorough ? 4000 : 500); ++r)
    {
        const size_t n = (size_t)(r % 50 == 49 ? R.range(10, 20) : R.range(1, a.thorough ? 9 : 7));
        Ev("Begin").i("n", (long long)n).emit();
        vp::guarded(10, [&] {
            ldlt_ext Q0(n);
            ldlt_ext Q(std::move(Q0));
            for (int q = R.range(1, 5); q > 0; --q)
            {
                Job j;
                const bool ex = R.chance(.6);
                j.exact = ex ? "all" : "no";
                j.A = ex ? exact_matrix(R, n) : random_matrix(R, n);
                j.semi = R.chance(.35);
                j.lazy = R.chance(.5);
                j.twice = R.chance(.2);
                if (R.chance(.4))
                    j.others.push_back(random_matrix(R, n));
                factor(Q, j);
            }
        });
    }
    return 0;
}
