// Recorded histories of operations on monomials and posynomials (C25).
#include "common.hpp"
#include <ellip/posynomial.hpp>
#include <sys/resource.h>

using vp::Ev;
using V = std::valarray<double>;
using M = monomial<double>;
using P = posynomial<double>;

struct Op
{
    std::string kind, op;
    int r = 0, q = 0;
    double k = 1.;
    std::vector<double> a;
    int i = 0;
};

static std::string nested(const std::vector<std::vector<double>>& v)
{
    std::string r = "[";
    for (size_t i = 0; i != v.size(); ++i)
        r += (i ? "," : "") + Ev::list(v[i]);
    return r + "]";
}
static std::vector<double> plain(const V& v) { return {std::begin(v), std::end(v)}; }

class World
{
    size_t n;
    std::vector<M> mono;
    std::vector<P> posy;
    std::vector<V> pts;
    int step = 0;

    // what every register shows at every point, asked in every way there is
    void shown(Ev& e)
    {
        std::vector<std::vector<double>> y;
        for (auto& p : pts)
            y.push_back(plain(p));
        e.raw("y", nested(y));
        std::string m = "[", p = "[";
        for (int r = 0; r < 2; ++r)
        {
            m += r ? ",[" : "[";
            p += r ? ",[" : "[";
            for (size_t t = 0; t != pts.size(); ++t)
            {
                const V& x = pts[t];
                double f2 = 0., f3 = 0.;
                {
                    const M& z = mono[r];
                    V g3(-7., n);
                    const double f = z.lse(x);
                    const V g = z.lse_gradient(x);
                    const V g2 = z.lse_gradient(x, f2);
                    f3 = z.log_exp_fvalue_with_gradient(x, g3);
                    m += (t ? ",{" : "{") + std::string("\"f\":") + Ev::list(std::vector<double> {f, f2, f3}) + ",\"g\":"
                        + nested({plain(g), plain(g2), plain(g3)}) + "}";
                }
                {
                    const P& z = posy[r];
                    V g3(-7., n);
                    const double f = z.lse(x);
                    const V g = z.log_exp_gradient(x);
                    const V g2 = z.lse_gradient(x, f2);
                    f3 = z.log_exp_fvalue_with_gradient(x, g3);
                    p += (t ? ",{" : "{") + std::string("\"f\":") + Ev::list(std::vector<double> {f, f2, f3}) + ",\"g\":"
                        + nested({plain(g), plain(g2), plain(g3)}) + "}";
                }
            }
            m += "]";
            p += "]";
        }
        e.raw("mono", m + "]").raw("posy", p + "]");
    }

    M made(const Op& o, int way) const
    {
        V a(o.a.data(), o.a.size());
        if (way == 0)
            return M(o.k, a);
        if (way == 1)
        {
            std::vector<double> ar {o.k};
            ar.insert(ar.end(), o.a.begin(), o.a.end());
            return M(n, ar.data());
        }
        if (n == 1)
            return M(o.k, {o.a[0]});
        if (n == 2)
            return M(o.k, {o.a[0], o.a[1]});
        if (n == 3)
            return M(o.k, {o.a[0], o.a[1], o.a[2]});
        return M(o.k, a);
    }
    void onMono(const Op& o, int way)
    {
        M& x = mono[o.r - 1];
        const M& q = mono[o.q - 1];
        if (o.op == "make")
            x = made(o, way % 3);
        else if (o.op == "constant")
            x = M(n, o.k);
        else if (o.op == "one")
            x = M(n);
        else if (o.op == "times")
        {
            if (way % 2)
                x *= q;
            else
                x = x * q;
        }
        else if (o.op == "over")
        {
            if (way % 2)
                x /= q;
            else
                x = x / q;
        }
        else if (o.op == "scale")
        {
            if (way % 4 == 0)
                x *= o.k;
            else if (way % 4 == 1)
                x = x * o.k;
            else if (way % 4 == 2 && o.k == (int)o.k)
                x = (int)o.k * x;
            else
                x = o.k * x;
        }
        else if (o.op == "shrink")
        {
            if (way % 2)
                x /= o.k;
            else
                x = x / o.k;
        }
        else if (o.op == "invert")
        {
            if (way % 2 && o.k == (int)o.k)
                x = (int)o.k / x;
            else
                x = o.k / x;
        }
        else if (o.op == "root")
        {
            if (way % 2)
                x.sqrt();
            else
                x = sqrt(x);
        }
        else if (o.op == "coeff")
            x.set_coeff(o.k);
        else if (o.op == "copy")
        {
            if (way % 2)
                x = q;
            else
                x = M(q);
        }
    }
    void onPosy(const Op& o, int way)
    {
        P& x = posy[o.r - 1];
        const M& m = mono[o.q - 1];
        const P& p = posy[o.q - 1];
        if (o.op == "from")
            x = P(m);
        else if (o.op == "ones")
            x = P(n, (size_t)o.i);
        else if (o.op == "addm")
        {
            if (way % 2)
                x += m;
            else
                x = x + m;
        }
        else if (o.op == "sum")
            x = m + mono[2 - o.q];
        else if (o.op == "addp")
            x += p;
        else if (o.op == "timesm")
        {
            if (way % 2)
                x *= m;
            else
                x = x * m;
        }
        else if (o.op == "overm")
        {
            if (way % 2)
                x /= m;
            else
                x = x / m;
        }
        else if (o.op == "timesown")
        {
            if (way % 2)
                x *= x._M[o.i - 1];
            else
                x = x * x._M[o.i - 1];
        }
        else if (o.op == "overown")
        {
            if (way % 2)
                x /= x._M[o.i - 1];
            else
                x = x / x._M[o.i - 1];
        }
        else if (o.op == "scale")
        {
            if (way % 2)
                x *= o.k;
            else
                x = x * o.k;
        }
        else if (o.op == "shrink")
        {
            if (way % 2)
                x /= o.k;
            else
                x = x / o.k;
        }
        else if (o.op == "product")
            x = x * p;
        else if (o.op == "copy")
        {
            if (way % 2)
                x = p;
            else
            {
                P c(p); // kept apart from its original
                x = c;
                c *= 3.;
                c += m;
            }
        }
    }

  public:
    explicit World(size_t n_) : n {n_}, mono(2, M(n_)), posy(2, P(M(n_))) { }
    void points(std::vector<V> p) { pts = std::move(p); }
    size_t terms(int r) const { return posy[r - 1]._M.size(); }
    void begin() { Ev("Begin").i("n", (long long)n).emit(); }
    void apply(const Op& o, int way, bool look)
    {
        if (o.kind == "mono")
            onMono(o, way);
        else
            onPosy(o, way);
        Ev e("Op");
        e.str("kind", o.kind).str("op", o.op).i("r", o.r).i("q", o.q).num("k", o.k).vec("a", o.a).i("i", o.i);
        if (look)
            shown(e);
        e.emit();
    }
};

static Op op(const std::string& kind, const std::string& name, int r, int q, double k, std::vector<double> a, int i)
{
    Op o;
    o.kind = kind, o.op = name, o.r = r, o.q = q, o.k = k, o.a = std::move(a), o.i = i;
    return o;
}

// one history of the design, twice: in place and with new objects
static void replay(const std::vector<std::string>& t, int way)
{
    vp::Cur c(t);
    c.s(); // the kind
    World w(2);
    w.points({V {0., 0.}, V {0.75, -0.5}, V {-1.25, 2.}});
    w.begin();
    w.apply(op("mono", "make", 1, 1, 2., {1., -1.}, 0), way, false);
    w.apply(op("mono", "make", 2, 1, .25, {0., 2.}, 0), way, false);
    w.apply(op("posy", "from", 1, 1, 1., {0., 0.}, 0), way, false);
    w.apply(op("posy", "from", 2, 2, 1., {0., 0.}, 0), way, false);
    // the second one has two terms
    w.apply(op("mono", "make", 2, 1, 3., {-2., 1.}, 0), way, false);
    w.apply(op("posy", "addm", 2, 2, 1., {0., 0.}, 0), way, false);
    w.apply(op("mono", "make", 2, 1, .25, {0., 2.}, 0), way, true);
    const auto len = c.i();
    for (long long s = 0; s < len; ++s)
    {
        Op o;
        c.i(); // the length of the entry
        o.kind = c.s(), o.op = c.s();
        o.r = (int)c.i(), o.q = (int)c.i(), o.k = c.d();
        for (auto m = c.i(); m > 0; --m)
            o.a.push_back(c.d());
        o.i = (int)c.i();
        w.apply(o, way + (int)s * way, s + 1 == len);
    }
}

static void random(vp::Rng& R, bool thorough)
{
    static const std::vector<std::string> MO {"make", "make", "constant", "one", "times", "over", "scale", "shrink", "invert", "root", "coeff", "copy"},
        PO {"from", "ones", "addm", "addm", "sum", "addp", "timesm", "overm", "timesown", "overown", "scale", "shrink", "product", "copy"};
    const int n = R.chance(.1) ? R.range(5, 12) : R.range(1, 4), steps = R.range(3, thorough ? 40 : 16), size = R.upto(3);
    World w((size_t)n);
    std::vector<V> pts;
    for (int t = 0; t < 3; ++t)
    {
        V y(0., (size_t)n);
        for (auto& x : y)
            x = size == 0 ? R.range(-2, 2) : R.real(-2., 2.) * (size == 2 ? 3. : 1.);
        pts.push_back(y);
    }
    w.points(pts);
    w.begin();
    double bound[2] = {0., 0.}; // on |log f| at the points, so that nothing overflows
    double pbound[2] = {0., 0.};
    const double most = 500., reach = size == 2 ? 6. : 2.;
    for (int s = 0; s < steps; ++s)
    {
        Op o;
        o.r = R.range(1, 2), o.q = R.range(1, 2);
        o.k = R.chance(.3) ? R.range(1, 9) : std::exp(R.chance(.2) ? R.real(-60., 60.) : R.real(-4., 4.));
        for (int m = 0; m < n; ++m)
            o.a.push_back(R.chance(.3) ? 0. : R.chance(.5) ? R.range(-3, 3) : R.real(-3., 3.));
        o.i = R.range(1, 4);
        double* b;
        double to = 0., sum = 0.;
        for (double x : o.a)
            sum += std::fabs(x) * reach;
        const double lk = std::fabs(std::log(o.k));
        if (s < 2 || R.chance(.4))
        {
            o.kind = "mono";
            o.op = s < 2 ? "make" : R.pick(MO);
            if (s < 2)
                o.r = s + 1;
            b = bound;
            if (o.op == "make")
                to = lk + sum;
            else if (o.op == "constant")
                to = lk;
            else if (o.op == "one")
                to = 0.;
            else if (o.op == "times" || o.op == "over")
                to = bound[o.r - 1] + bound[o.q - 1];
            else if (o.op == "scale" || o.op == "shrink" || o.op == "invert" || o.op == "coeff")
                to = bound[o.r - 1] + lk;
            else if (o.op == "copy")
                to = bound[o.q - 1];
            else
                to = bound[o.r - 1];
        }
        else
        {
            o.kind = "posy";
            o.op = R.pick(PO);
            const size_t mine = w.terms(o.r), theirs = w.terms(o.q);
            b = pbound;
            if (o.op == "from")
                to = bound[o.q - 1];
            else if (o.op == "ones")
                to = 2.;
            else if (o.op == "addm")
                to = std::max(pbound[o.r - 1], bound[o.q - 1]) + 1.;
            else if (o.op == "sum")
                to = std::max(bound[0], bound[1]) + 1.;
            else if (o.op == "addp")
            {
                if (mine + theirs > 12)
                    continue;
                to = std::max(pbound[0], pbound[1]) + 1.;
            }
            else if (o.op == "timesm" || o.op == "overm")
                to = pbound[o.r - 1] + bound[o.q - 1];
            else if (o.op == "timesown" || o.op == "overown")
            {
                o.i = R.range(1, (int)mine);
                to = 2. * pbound[o.r - 1];
            }
            else if (o.op == "scale" || o.op == "shrink")
                to = pbound[o.r - 1] + lk;
            else if (o.op == "product")
            {
                if (mine * theirs > 12)
                    continue;
                to = pbound[o.r - 1] + pbound[o.q - 1];
            }
            else if (o.op == "copy")
                to = pbound[o.q - 1];
        }
        if (to > most)
            continue;
        b[o.r - 1] = to;
        w.apply(o, R.upto(12), s < 2 || R.chance(.5) || s + 1 == steps);
    }
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    const struct rlimit most {1ul << 31, 1ul << 31}; // a sum that never ends is an event, not a full machine
    setrlimit(RLIMIT_AS, &most);
    for (auto& t : a.scenarios)
        for (int way = 0; way < 2; ++way)
            vp::guarded(10, [&] { replay(t, way); });
    vp::Rng R(a.seed + 25);
    for (int r = 0; r < (a.thorough ? 4000 : 400); ++r)
        vp::guarded(10, [&] { random(R, a.thorough); });
    return 0;
}
