// Recorded arithmetic on fractions (C13).
#include <py2cpp/fractions.hpp> // first, and nothing before it
#include "common.hpp"
#include <type_traits>

using vp::Ev;
typedef __int128 big;

template <typename Z>
static std::string hex(Z x)
{
    char b[40];
    const unsigned long long u = x < 0 ? 0ull - (unsigned long long)x : (unsigned long long)x;
    if (x < 2000000000 && x > -2000000000)
        std::snprintf(b, sizeof b, "%lld", (long long)x);
    else
        std::snprintf(b, sizeof b, "\"%s%llx/1\"", x < 0 ? "-" : "", u);
    return b;
}

static big mag(big x) { return x < 0 ? -x : x; }

// does every intermediate value of the textbook formulas stay within lim?
static bool fits(const std::string& op, big n1, big d1, big n2, big d2, big z, big lim)
{
    if (mag(n1) > lim || mag(d1) > lim || mag(n2) > lim || mag(d2) > lim)
        return false;
    if (op == "imuln")
        z = n1, n2 = n1, d2 = 1;
    if (op == "idivn")
        z = n1, n2 = n1, d2 = 1;
    if (op == "imuld" || op == "idivd")
        z = d1, n2 = d1, d2 = 1;
    if (op.find('z') != std::string::npos || op.compare(0, 3, "lit") == 0)
        n2 = z, d2 = 1;
    return mag(n1) * mag(d2) + mag(n2) * mag(d1) < lim && mag(d1) * mag(d2) < lim && mag(n1) * mag(n2) < lim &&
        mag(n1) * mag(d2) < lim && mag(d1) * mag(n2) < lim;
}

struct Op
{
    std::string op;
    int r, a, b;
    long long z;
};

template <typename Z>
class Machine
{
    using F = fun::Fraction<Z>;
    std::vector<F> reg;
    const big lim = (big)1 << (sizeof(Z) * 8 - 3);

    std::string regs() const
    {
        std::string s = "[";
        for (size_t i = 0; i != reg.size(); ++i)
            s += (i ? ",[" : "[") + hex(reg[i].numerator()) + "," + hex(reg[i].denominator()) + "]";
        return s + "]";
    }

  public:
    void begin() { Ev("Begin").i("bits", sizeof(Z) * 8).emit(); }
    // how: which constructor
    void make(Z n, Z d, int how)
    {
        F f = how % 3 == 0 ? F(n, d) : how % 3 == 1 ? F(Z(n), Z(d)) : d == 1 ? (how % 2 ? F(n) : F(Z(n))) : F(n, d);
        reg.push_back(f);
        Ev("Make").i("r", (long long)reg.size()).raw("num", hex(n)).raw("den", hex(d)).raw("n", hex(f.numerator())).raw("d", hex(f.denominator())).emit();
    }
    bool can(const Op& o) const
    {
        const F &x = reg[(size_t)o.a - 1], &y = reg[(size_t)o.b - 1];
        if ((o.op == "div" || o.op == "idiv") && y.numerator() == 0)
            return false;
        if ((o.op == "rec" || o.op == "idivn") && x.numerator() == 0)
            return false;
        if ((o.op == "divz" || o.op == "idivz") && o.z == 0)
            return false;
        return fits(o.op, x.numerator(), x.denominator(), y.numerator(), y.denominator(), o.z, lim);
    }
    void apply(const Op& o)
    {
        F &x = reg[(size_t)o.a - 1], &y = reg[(size_t)o.b - 1], &r = reg[(size_t)o.r - 1];
        const Z z = (Z)o.z;
        const auto& op = o.op;
        // compound forms work on a itself, so r = a for them
        if (op == "neg") r = -x;
        else if (op == "abs") r = x.abs();
        else if (op == "rec") { F t = x; t.reciprocal(); r = t; }
        else if (op == "copy") r = x;
        else if (op == "add") r = x + y;
        else if (op == "sub") r = x - y;
        else if (op == "mul") r = x * y;
        else if (op == "div") r = x / y;
        else if (op == "iadd") r += y;
        else if (op == "isub") r -= y;
        else if (op == "imul") r *= y;
        else if (op == "idiv") r /= y;
        else if (op == "addz") r = x + z;
        else if (op == "subz") r = x - z;
        else if (op == "mulz") r = x * z;
        else if (op == "divz") r = x / z;
        else if (op == "iaddz") r += z;
        else if (op == "isubz") r -= z;
        else if (op == "imulz") r *= z;
        else if (op == "idivz") r /= z;
        else if (op == "zadd") r = z + x;
        else if (op == "zsub") r = z - x;
        else if (op == "zmul") r = z * x;
        else if (op == "litadd") r = int(o.z) + x;
        else if (op == "litsub") r = int(o.z) - x;
        else if (op == "litmul") r = int(o.z) * x;
        else if (op == "imuln") r *= r.numerator();
        else if (op == "imuld") r *= r.denominator();
        else if (op == "idivn") r /= r.numerator();
        else if (op == "idivd") r /= r.denominator();
        Ev("Op").str("op", op).i("r", o.r).i("a", o.a).i("b", o.b).raw("z", hex(z)).raw("n", hex(r.numerator())).raw("d", hex(r.denominator()))
            .raw("regs", regs()).emit();
    }
    void compare(int a, int b)
    {
        const F &x = reg[(size_t)a - 1], &y = reg[(size_t)b - 1];
        if (!fits("sub", x.numerator(), x.denominator(), y.numerator(), y.denominator(), 0, lim))
            return;
        const auto c = x.cmp(y);
        auto s = [](bool v) { return v ? std::string("true") : std::string("false"); };
        Ev("Cmp").i("a", a).i("b", b).raw("ans", "[" + s(x < y) + "," + s(x <= y) + "," + s(x > y) + "," + s(x >= y) + "," + s(x == y) + "," + s(x != y) + "]")
            .i("cmp", c < 0 ? -1 : c > 0 ? 1 : 0).emit();
    }
    void compare_int(int a, long long zz)
    {
        const F& x = reg[(size_t)a - 1];
        const Z z = (Z)zz;
        if (!fits("sub", x.numerator(), x.denominator(), z, 1, 0, lim))
            return;
        auto s = [](bool v) { return v ? std::string("true") : std::string("false"); };
        Ev("CmpZ").i("a", a).raw("z", hex(z))
            .raw("ans", "[" + s(x < z) + "," + s(x <= z) + "," + s(x > z) + "," + s(x >= z) + "," + s(x == z) + "," + s(x != z) + "]")
            .raw("left", "[" + s(z < x) + "," + s(z <= x) + "," + s(z > x) + "," + s(z >= x) + "," + s(z == x) + "," + s(z != x) + "]").emit();
    }
    void gcd(Z x, Z y)
    {
        if (mag(x) * mag(y) < lim)
            Ev("Gcd").raw("x", hex(x)).raw("y", hex(y)).raw("g", hex(fun::gcd(x, y))).raw("m", hex(fun::lcm(x, y))).emit();
    }
    const F& at(int i) const { return reg[(size_t)i - 1]; }
};

template <typename Z>
static void replay(const std::vector<std::string>& t, int k)
{
    vp::Cur c(t);
    Machine<Z> m;
    m.begin();
    vp::guarded(20, [&] {
        c.i();
        const Z n1 = (Z)c.i(), d1 = (Z)c.i(), n2 = (Z)c.i(), d2 = (Z)c.i();
        m.make(n1, d1, k);
        m.make(n2, d2, k + 1);
        while (c.more())
        {
            Op o;
            c.i();
            o.op = c.s();
            o.r = (int)c.i();
            o.a = (int)c.i();
            o.b = (int)c.i();
            o.z = c.i();
            if (!m.can(o))
                break;
            m.apply(o);
        }
        m.compare(1, 2);
        m.compare_int(1, k % 5 - 2);
    });
}

static const std::vector<std::string> OPS {"neg", "abs", "rec", "copy", "add", "sub", "mul", "div", "iadd", "isub", "imul", "idiv", "addz", "subz", "mulz", "divz",
    "iaddz", "isubz", "imulz", "idivz", "zadd", "zsub", "zmul", "litadd", "litsub", "litmul", "imuln", "imuld", "idivn", "idivd"};

template <typename Z>
static void wander(vp::Rng& R, int len)
{
    Machine<Z> m;
    m.begin();
    vp::guarded(20, [&] {
        const bool wide = R.chance(.5) && sizeof(Z) > 4;
        auto num = [&](int span) -> Z
        {
            if (wide && R.chance(.5))
                return (Z)R.real(-1e10, 1e10);
            return (Z)R.range(-span, span);
        };
        const int K = R.range(2, 4), span = R.pick(std::vector<int> {3, 12, 100, 1000});
        for (int i = 0; i < K; ++i)
        {
            Z d = num(span);
            if (d == 0)
                d = 1;
            m.make(num(span), d, R.upto(6));
        }
        for (int i = 0; i < len; ++i)
        {
            Op o;
            o.op = R.pick(OPS);
            o.r = R.range(1, K);
            o.a = R.range(1, K);
            o.b = R.range(1, K);
            o.z = R.chance(.2) ? 0 : (long long)num(R.chance(.7) ? 6 : 60);
            if (o.op.compare(0, 3, "lit") == 0)
                o.z = R.range(-9, 9);
            if (o.op[0] == 'i')
                o.a = o.r;
            if (o.op == "iaddz" && R.chance(.3))
                o.z = -o.z;
            // combined with a divisor of a part, so that reductions happen
            if ((o.op == "mulz" || o.op == "imulz" || o.op == "zmul") && R.chance(.5))
                o.z = (long long)m.at(o.a).denominator() * R.pick(std::vector<int> {1, -1, 2, -3});
            if ((o.op == "divz" || o.op == "idivz") && R.chance(.5))
                o.z = (long long)m.at(o.a).numerator() * R.pick(std::vector<int> {1, -1, 2, -3});
            if (!m.can(o))
            {
                // shrink again
                Op s {"subz", o.a, o.a, o.a, 0};
                if (R.chance(.4) && m.can(Op {"sub", o.r, o.r, o.r, 0}))
                    m.apply(Op {"sub", o.r, o.r, o.r, 0});
                continue;
            }
            m.apply(o);
            if (R.chance(.5))
                m.compare(R.range(1, K), R.range(1, K));
            if (R.chance(.3))
            {
                const auto& x = m.at(o.r);
                const long long q = x.denominator() ? (long long)(x.numerator() / x.denominator()) : 0;
                m.compare_int(o.r, R.chance(.7) ? q + R.range(-1, 1) : R.range(-5, 5));
            }
            if (R.chance(.1))
            {
                const Z g = (Z)R.range(1, 40);
                m.gcd((Z)R.range(-60, 60) * g, (Z)R.range(-60, 60) * g);
            }
        }
    });
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    int k = 0;
    for (auto& t : a.scenarios)
    {
        ++k;
        if (k % 4 == 0)
            replay<long>(t, k);
        else if (k % 4 == 1)
            replay<long long>(t, k);
        else
            replay<int>(t, k);
    }
    vp::Rng R(a.seed + 5);
    for (int r = 0; r < (a.thorough ? 3000 : 400); ++r)
    {
        const int len = R.range(3, a.thorough ? 60 : 30);
        if (r % 3 == 0)
            wander<long>(R, len);
        else if (r % 3 == 1)
            wander<long long>(R, len);
        else
            wander<int>(R, len);
    }
    return 0;
}
