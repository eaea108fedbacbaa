// Recorded solves of the problems of the library's oracles, with points found by another search (C27).
#include "graphs.hpp"
#include <algorithm>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell1d.hpp>
#include <ellcpp/oracles/cycle_ratio_oracle.hpp>
#include <ellcpp/oracles/lmi_old_oracle.hpp>
#include <ellcpp/oracles/lmi_oracle.hpp>
#include <ellcpp/oracles/lowpass_oracle.hpp>
#include <ellcpp/oracles/optscaling_oracle.hpp>
#include <ellcpp/oracles/profit_oracle.hpp>
#include <ellcpp/oracles/qmi_oracle.hpp>
#include <xtensor-blas/xlinalg.hpp>

using vp::Ev;
using Arr = xt::xarray<double, xt::layout_type::row_major>;
using Vec = std::vector<double>;
using Mat = std::vector<Vec>;
using G = xn::grAdaptor<vp::graph_t>;

static double least_eigen(Mat a) // Jacobi
{
    const size_t n = a.size();
    for (int sweep = 0; sweep < 40; ++sweep)
    {
        double off = 0, all = 0;
        for (size_t i = 0; i != n; ++i)
            for (size_t j = 0; j != n; ++j)
                (i == j ? all : off) += a[i][j] * a[i][j];
        if (off <= 1e-26 * (all + off))
            break;
        for (size_t p = 0; p + 1 < n; ++p)
            for (size_t q = p + 1; q != n; ++q)
            {
                if (a[p][q] == 0.)
                    continue;
                const double th = (a[q][q] - a[p][p]) / (2 * a[p][q]);
                const double t = (th < 0 ? -1. : 1.) / (std::fabs(th) + std::sqrt(th * th + 1));
                const double c = 1 / std::sqrt(t * t + 1), s = t * c;
                for (size_t k = 0; k != n; ++k)
                {
                    const double x = a[k][p], y = a[k][q];
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for (size_t k = 0; k != n; ++k)
                {
                    const double x = a[p][k], y = a[q][k];
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
            }
    }
    double r = a[0][0];
    for (size_t i = 1; i != n; ++i)
        r = std::min(r, a[i][i]);
    return r;
}

struct Block
{
    std::vector<Mat> F;
    Mat F0;
    Mat at(const Vec& x) const
    {
        Mat m = F0;
        for (size_t k = 0; k != F.size(); ++k)
            for (size_t i = 0; i != m.size(); ++i)
                for (size_t j = 0; j != m[i].size(); ++j)
                    m[i][j] -= F[k][i][j] * x[k];
        return m;
    }
};
static Arr arr(const Vec& x)
{
    Arr r = xt::zeros<double>({x.size()});
    std::copy(x.begin(), x.end(), r.begin());
    return r;
}
static Arr arr(const Mat& m, size_t cols = 0)
{
    Arr r = xt::zeros<double>({m.size(), cols ? cols : m[0].size()});
    for (size_t i = 0; i != m.size(); ++i)
        for (size_t j = 0; j != m[i].size(); ++j)
            r(i, j) = m[i][j];
    return r;
}
static std::vector<Arr> arrs(const std::vector<Mat>& v)
{
    std::vector<Arr> r;
    for (auto& m : v)
        r.push_back(arr(m));
    return r;
}
static Vec vec(double x) { return {x}; }
static Vec vec(const Arr& x) { return Vec(x.begin(), x.end()); }

static double dot(const Vec& a, const Vec& x)
{
    double r = 0;
    for (size_t i = 0; i != x.size(); ++i)
        r += a[i] * x[i];
    return r;
}

struct Job
{
    std::string form;
    vp::Net net;
    Vec cost, time;                                                  // ratio, scale
    double p = 0, A = 0, k = 0, e3 = 0;                              // profit, robust
    Vec a, v, e;
    std::vector<Block> blocks;                                       // matrix, norm
    Vec c;
    Mat pass, stop, other;                                           // filter
    double lower = 0, upper = 0;
    // where the search starts: an interval for ratio, else a ball about x0
    double lo = 0, hi = 0, alpha = 1, from = 0;
    Vec x0;
    bool old = false; // matrix: the oracle that keeps the matrices
    int options = 0;
    bool halves = false, fold = false; // the options of the ellipsoid

    bool maximises() const { return form == "ratio" || form == "profit" || form == "robust"; }
    bool fine(const Vec& x, double room) const // network
    {
        Vec d((size_t)net.n, 0.);
        for (int r = 0; r <= net.n; ++r)
        {
            bool any = false;
            for (size_t i = 0; i != net.e.size(); ++i)
            {
                const auto [s, t] = net.e[i];
                const double w = (form == "ratio" ? cost[i] - time[i] * x[0] : s < t ? x[0] - cost[i] : cost[i] - x[1]) - room;
                if (d[(size_t)t] > d[(size_t)s] + w + 1e-12)
                {
                    d[(size_t)t] = d[(size_t)s] + w;
                    any = true;
                }
            }
            if (!any)
                return true;
        }
        return false;
    }
    // how much room there is; only steers the search
    double room(const Vec& x) const
    {
        double r;
        if (form == "ratio" || form == "scale")
        {
            double l = -1000, h = 1;
            if (fine(x, 2 * acc()))
                return 2 * acc();
            for (int q = 0; q < 30; ++q)
            {
                const double m = (l + h) / 2;
                (fine(x, m) ? l : h) = m;
            }
            r = l;
        }
        else if (form == "profit" || form == "robust")
            r = std::log(k - e3) - x[0];
        else if (form == "filter")
        {
            r = x[0];
            for (auto& m : pass)
                r = std::min({r, dot(m, x) - lower, upper - dot(m, x)});
            for (auto& m : stop)
                r = std::min(r, dot(m, x));
            for (auto& m : other)
                r = std::min(r, dot(m, x));
        }
        else
        {
            r = 1;
            if (form == "matrix")
                for (auto& b : blocks)
                    r = std::min(r, least_eigen(b.at(x)));
        }
        return r;
    }
    bool reach(const Vec& x) const
    {
        if (form == "ratio")
            return x[0] >= lo && x[0] <= hi;
        double d = 0;
        for (size_t i = 0; i != x.size(); ++i)
            d += (x[i] - x0[i]) * (x[i] - x0[i]);
        return d <= alpha * (1 - 1e-12);
    }
    double value(const Vec& x) const // the less the better
    {
        if (form == "ratio")
            return -x[0];
        if (form == "scale")
            return x[0] - x[1];
        if (form == "matrix")
            return dot(c, x);
        if (form == "filter")
        {
            double r = -1e300;
            for (auto& m : stop)
                r = std::max(r, dot(m, x));
            return r;
        }
        if (form == "norm")
        {
            const Mat R = blocks[0].at(x);
            const size_t m = R[0].size();
            Mat N(m, Vec(m));
            for (size_t i = 0; i != m; ++i)
                for (size_t j = 0; j != m; ++j)
                    for (auto& row : R)
                        N[i][j] -= row[i] * row[j];
            return -least_eigen(N);
        }
        double r = 0;
        for (size_t i = 0; i < 2; ++i)
        {
            const double w = form == "robust" ? e[i] : 0;
            r += std::min((a[i] - w) * x[i], (a[i] + w) * x[i]);
        }
        return -((p - e3) * A * std::exp(r) - (v[0] + e3) * std::exp(x[0]) - (v[1] + e3) * std::exp(x[1]));
    }
    double acc() const { return 3e-4 + (form == "ratio" ? 0 : 1e-5 * std::sqrt(alpha)); }
    double merit(const Vec& x) const
    {
        if (!reach(x))
            return 1e12;
        const double r = room(x) - 1.05 * acc();
        return r < 0 ? 1e9 - r : value(x);
    }
};

static Vec search(const Job& j, Vec x, vp::Rng& R, int steps)
{
    double best = j.merit(x), h = .5;
    for (int k = 0; k < steps; ++k)
    {
        Vec y = x;
        if (R.chance(.3))
            y[(size_t)R.upto((int)x.size())] += h * R.real(-1., 1.);
        else
            for (auto& v : y)
                v += h * R.real(-1., 1.);
        const double f = j.merit(y);
        if (f < best)
        {
            best = f;
            x = y;
            h *= 1.7;
        }
        else
            h = std::max(h * .92, 1e-6);
    }
    return x;
}

static std::string lists(const std::vector<Vec>& v)
{
    std::string s = "[";
    for (auto& y : v)
        s += (s.size() > 1 ? "," : "") + Ev::list(y);
    return s + "]";
}
static void begin(const Job& j)
{
    Ev b("Begin");
    b.str("form", j.form).num("from", j.from);
    if (j.form == "ratio")
        b.num("lo", j.lo).num("hi", j.hi);
    else
        b.num("alpha", j.alpha).vec("x0", j.x0);
    if (j.form == "ratio" || j.form == "scale")
        b.i("n", j.net.n).raw("edges", j.net.json()).vec("cost", j.cost).vec("time", j.time);
    else if (j.form == "profit" || j.form == "robust")
        b.num("p", j.p).num("A", j.A).num("k", j.k).vec("a", j.a).vec("v", j.v).vec("box", j.e).num("e3", j.e3);
    else if (j.form == "filter")
        b.raw("pass", lists(j.pass)).raw("stop", lists(j.stop)).raw("other", lists(j.other)).num("lower", j.lower).num("upper", j.upper);
    else
    {
        std::string s = "[";
        for (auto& k : j.blocks)
        {
            s += std::string(s.size() > 1 ? "," : "") + "{\"F0\":" + lists(k.F0) + ",\"F\":[";
            for (size_t q = 0; q != k.F.size(); ++q)
                s += (q ? "," : "") + lists(k.F[q]);
            s += "]}";
        }
        b.raw("blocks", s + "]").vec("c", j.c);
    }
    b.emit();
}

template <typename O>
struct Watch // the oracle, and what it says
{
    O& o;
    template <typename X>
    auto operator()(const X& x, double& t)
    {
        const double t0 = t;
        auto r = o(x, t);
        Vec f = vec(std::get<1>(std::get<0>(r)));
        const Vec far(f.begin() + 1, f.end());
        Ev("Ask").vec("x", vec(x)).num("t0", t0).num("t1", t).b("shrunk", std::get<1>(r)).vec("g", vec(std::get<0>(std::get<0>(r)))).num("f", f[0]).vec("far", far).emit();
        return r;
    }
};
static std::vector<Vec> others(const Job& j, const Vec& x, bool ok, vp::Rng& R)
{
    std::vector<Vec> ys;
    const Vec mid = j.form == "ratio" ? Vec {(j.lo + j.hi) / 2} : j.x0;
    const double span = j.form == "ratio" ? (j.hi - j.lo) / 2 : std::sqrt(j.alpha / (double)j.x0.size());
    auto add = [&](Vec y) {
        y = search(j, y, R, 300);
        if (j.merit(y) < 1e8)
            ys.push_back(y);
    };
    if (ok)
        add(x);
    add(mid);
    for (int k = 0; k < 3; ++k)
    {
        Vec y = mid;
        for (auto& v : y)
            v += span * R.real(-1., 1.);
        add(y);
    }
    if (!ys.empty())
    {
        auto it = std::min_element(ys.begin(), ys.end(), [&](const Vec& a, const Vec& b) { return j.merit(a) < j.merit(b); });
        add(*it);
    }
    return ys;
}
template <typename O, typename S>
static void optimise(const Job& j, O& oracle, S space, vp::Rng& R)
{
    double t = j.from;
    Watch<O> w {oracle};
    const auto r = j.options ? cutting_plane_dc(w, space, t, Options {400, 1e-10}) : cutting_plane_dc(w, space, t);
    const auto& info = std::get<1>(r);
    const Vec x = info.feasible ? vec(std::get<0>(r)) : Vec {};
    Ev("Finish").vec("x", x).num("t", t).b("ok", info.feasible).b("limit", info.num_iters >= (j.options ? 400U : 2000U))
        .raw("ys", lists(others(j, x, info.feasible, R))).emit();
}

struct Mine // least c.x under matrix inequalities, as in the tests
{
    std::vector<std::vector<Arr>> F;
    std::vector<lmi_oracle> now;
    std::vector<lmi_old_oracle> then;
    Arr c;
    explicit Mine(const Job& j) : c {arr(j.c)}
    {
        for (auto& b : j.blocks)
            F.push_back(arrs(b.F));
        for (size_t k = 0; k != j.blocks.size(); ++k)
            if (j.old)
                then.emplace_back(gsl::span<const Arr>(F[k]), arr(j.blocks[k].F0));
            else
                now.emplace_back(gsl::span<const Arr>(F[k]), arr(j.blocks[k].F0));
    }
    std::tuple<std::tuple<Arr, double>, bool> operator()(const Arr& x, double& t)
    {
        for (auto& o : now)
            if (const auto cut = o(x))
                return {*cut, false};
        for (auto& o : then)
            if (const auto cut = o(x))
                return {*cut, false};
        const double f = xt::linalg::dot(c, x)();
        if (f - t > 0)
            return {{c, f - t}, false};
        t = f;
        return {{c, 0.}, true};
    }
};

static ell region(const Job& j)
{
    ell E(j.alpha, arr(j.x0));
    E.use_parallel_cut = !j.halves;
    E.no_defer_trick = j.fold;
    return E;
}
static void run(const Job& j, vp::Rng& R)
{
    begin(j);
    vp::guarded(60, [&] {
        if (j.form == "ratio" || j.form == "scale")
        {
            auto g = j.net.build<vp::graph_t>();
            long calls = 0;
            auto id = [&](const auto& e) {
                if (++calls > 5000000)
                    throw vp::Overrun();
                return boost::get(boost::id_tag, g, e);
            };
            auto cost = [&](const auto& e) -> double { return j.cost[id(e)]; };
            auto time = [&](const auto& e) -> double { return j.time[id(e)]; };
            Vec u((size_t)j.net.n, 0.);
            if (j.form == "ratio")
            {
                cycle_ratio_oracle<G, Vec, decltype(cost), decltype(time)> O(g, u, cost, time);
                optimise(j, O, ell1d(j.lo, j.hi), R);
            }
            else
            {
                optscaling_oracle<G, Vec, decltype(cost)> O(g, u, cost);
                optimise(j, O, region(j), R);
            }
        }
        else if (j.form == "profit")
        {
            profit_oracle O(j.p, j.A, j.k, arr(j.a), arr(j.v));
            optimise(j, O, region(j), R);
        }
        else if (j.form == "robust")
        {
            profit_rb_oracle O(j.p, j.A, j.k, arr(j.a), arr(j.v), arr(j.e), j.e3);
            optimise(j, O, region(j), R);
        }
        else if (j.form == "filter")
        {
            const Arr pass = arr(j.pass, j.x0.size()), stop = arr(j.stop, j.x0.size()), other = arr(j.other, j.x0.size());
            lowpass_oracle O(pass, stop, other, j.lower, j.upper);
            optimise(j, O, region(j), R);
        }
        else if (j.form == "matrix")
        {
            Mine O(j);
            optimise(j, O, region(j), R);
        }
        else
        {
            const auto F = arrs(j.blocks[0].F);
            const Arr F0 = arr(j.blocks[0].F0);
            qmi_oracle O(F, F0);
            ell E(j.alpha, arr(j.x0));
            bsearch_adaptor<qmi_oracle, ell> P(O, E);
            const auto ys = others(j, {}, false, R);
            auto asked = [&](double t) {
                const Vec from = vec(P.x_best());
                const bool ok = P(t);
                Ev("Try").num("t", t).vec("from", from).b("ok", ok).vec("x", vec(P.x_best())).raw("ys", lists(ys)).emit();
                return ok;
            };
            auto I = std::make_pair(0., j.from);
            const auto info = bsearch(asked, I, Options {2000, 1e-5});
            Ev("Bracket").num("lo", I.first).num("hi", I.second).b("ok", info.feasible).vec("x", vec(P.x_best())).emit();
        }
    });
}

static Mat mat(vp::Cur& c)
{
    Mat m((size_t)c.i());
    for (auto& r : m)
        r = vp::nums(c);
    return m;
}
static Mat draw(vp::Rng& R, size_t r, size_t c, double span, bool sym, double lift)
{
    Mat m(r, Vec(c));
    const double grain = R.pick<double>({1, 8, 1048576});
    for (auto& row : m)
        for (auto& v : row)
            v = std::nearbyint(R.real(-span, span) * grain) / grain;
    if (sym)
        for (size_t i = 0; i != r; ++i)
        {
            for (size_t j = 0; j != i; ++j)
                m[i][j] = m[j][i];
            m[i][i] += lift;
        }
    return m;
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    vp::Rng R(a.seed + 270);
    for (auto& s : a.scenarios)
    {
        vp::Cur c(s);
        Job j;
        j.form = c.s();
        c.i();
        if (j.form == "ratio" || j.form == "scale")
        {
            j.net = vp::net(c);
            j.cost = vp::nums(c);
            j.time = vp::nums(c);
            j.lo = -8;
            j.hi = 8;
            j.alpha = 60;
            j.x0 = {1, 0};
            j.from = j.form == "ratio" ? -1e100 : 1e100;
        }
        else if (j.form == "matrix")
        {
            for (auto m = c.i(); m > 0; --m)
            {
                c.i();
                Block b;
                b.F0 = mat(c);
                for (auto q = c.i(); q > 0; --q)
                    b.F.push_back(mat(c));
                j.blocks.push_back(b);
            }
            j.c = vp::nums(c);
            j.alpha = 50;
            j.x0 = {0, 0};
            j.from = 1e100;
        }
        else if (j.form == "filter")
        {
            j.pass = mat(c);
            j.stop = mat(c);
            j.other = mat(c);
            j.lower = c.d();
            j.upper = c.d();
            j.alpha = 40;
            j.x0 = {0, 0};
            j.from = 1e3;
        }
        else
        {
            j.p = c.d();
            j.A = c.d();
            j.k = c.d();
            j.a = vp::nums(c);
            j.v = vp::nums(c);
            j.e = vp::nums(c);
            j.e3 = c.d();
            j.alpha = 100;
            j.x0 = {0, 0};
        }
        run(j, R);
        if (j.form == "matrix")
        {
            j.old = true;
            run(j, R);
        }
    }
    const int runs = a.thorough ? 1500 : 150;
    for (int q = 0; q < runs; ++q)
    {
        Job j;
        j.form = R.pick<std::string>({"ratio", "scale", "profit", "robust", "matrix", "matrix", "norm", "filter"});
        j.options = R.chance(.25);
        j.halves = R.chance(.2);
        j.fold = R.chance(.2);
        if (j.form == "ratio" || j.form == "scale")
        {
            const int n = q % 17 == 16 ? R.range(8, 14) : R.range(2, 6);
            j.net = vp::random_net(R, n, R.range(n, 3 * n), j.form != "scale");
            const int span = R.pick<int>({2, 10, 100}), grain = R.pick<int>({1, 4, 1000});
            for (size_t i = 0; i != j.net.e.size(); ++i)
            {
                j.cost.push_back(R.range(-span * grain, span * grain) / (double)grain);
                j.time.push_back(j.form == "scale" ? 1. : R.range(1, 4 * grain) / (double)grain + (R.chance(.5) ? .25 : 1));
            }
            j.lo = -span * R.real(.1, 6.);
            j.hi = j.lo + span * R.real(.5, 9.);
            j.x0 = {span * R.real(-1., 1.5), span * R.real(-1.5, 1.)};
            j.alpha = span * span * R.pick<double>({.5, 4, 20});
            j.from = j.form == "ratio" ? -1e100 : 1e100;
            if (R.chance(.3))
                j.from = R.real(-span, span);
        }
        else if (j.form == "profit" || j.form == "robust")
        {
            j.p = R.real(5, 40);
            j.A = R.real(10, 60);
            j.k = R.real(3, 60);
            const double s = R.real(.3, .85);
            const double w = R.real(.15, .85);
            j.a = {s * w, s * (1 - w)};
            j.v = {R.real(2, 40), R.real(2, 40)};
            j.e = {R.real(0, .03), R.real(0, .03)};
            j.e3 = j.form == "robust" ? R.real(0., 1.) : 0.;
            j.x0 = {R.real(-1, 2), R.real(-1, 3)};
            if (R.chance(.4)) // so dear that less than one unit is best
            {
                j.v = {R.real(40, 400), R.real(40, 400)};
                j.x0 = {R.real(-3, 0), R.real(-3, 0)};
            }
            j.alpha = R.pick<double>({9, 25, 100});
            if (R.chance(.3))
                j.from = R.real(0, 1500);
        }
        else if (j.form == "filter")
        {
            const size_t n = (size_t)R.range(2, 5);
            const bool real = R.chance(.6); // the rows of a response, or any rows
            double w = 0;
            auto rows = [&](int k, double until) {
                Mat m;
                for (int i = 0; i < k; ++i)
                {
                    w = real ? w + (until - w) / (k - i) * (i + 1 < k ? R.real(.5, 1.) : 1.) : 0;
                    Vec r {1.};
                    for (size_t q = 1; q < n; ++q)
                        r.push_back(real ? 2 * std::cos(w * (double)q) : R.real(-2., 2.));
                    m.push_back(r);
                }
                return m;
            };
            const double edge = R.real(.2, 1.);
            j.pass = rows(R.range(1, 6), edge);
            w = edge + R.real(.3, 1.2);
            j.other = rows(R.range(0, 3), w);
            j.stop = rows(R.range(1, 6), std::acos(-1.));
            j.lower = R.real(.3, 1.);
            j.upper = j.lower * R.real(1.05, 2.);
            j.x0 = Vec(n, 0.);
            j.alpha = R.pick<double>({1, 4, 40});
            j.from = R.pick<double>({.1, .5, 3, 1e3});
        }
        else
        {
            const size_t n = (size_t)R.range(1, 3) + (R.chance(.2) ? 1 : 0) + (R.chance(.7) ? 1 : 0);
            const size_t d = n < 2 ? 2 : n;
            const int nb = j.form == "norm" ? 1 : R.range(1, 3);
            const double lift = R.pick<double>({0, 6, 6, 12});
            for (int k = 0; k < nb; ++k)
            {
                Block b;
                const size_t r = (size_t)R.range(1, 4), cc = j.form == "norm" ? (size_t)R.range(1, 4) : r;
                b.F0 = draw(R, r, cc, 4, j.form == "matrix", lift);
                for (size_t i = 0; i != d; ++i)
                    b.F.push_back(draw(R, r, cc, 2, j.form == "matrix", 0));
                j.blocks.push_back(b);
            }
            for (size_t i = 0; i != d; ++i)
            {
                j.c.push_back(R.real(-2, 2));
                j.x0.push_back(R.chance(.5) ? 0. : R.real(-1, 1));
            }
            j.alpha = R.pick<double>({1, 10, 40});
            j.old = R.chance(.4);
            j.from = j.form == "norm" ? R.pick<double>({1, 10, 100}) : 1e100;
            if (j.form == "matrix" && R.chance(.25))
                j.from = R.real(-4, 2);
        }
        run(j, R);
    }
    return 0;
}
