// Recorded conversions to and from signed digits (C20).
#include "common.hpp"
#include <string_view>

extern std::string to_csd(double num, int places);
extern std::string to_csdfixed(double num, unsigned int nnz);
extern double to_decimal(std::string_view csd_str);

using vp::Ev;

static std::vector<int> codes(const std::string& s)
{
    std::vector<int> r;
    for (char c : s)
        r.push_back(c == '+' ? 1 : c == '-' ? -1 : c == '0' ? 0 : c == '.' ? 2 : 9);
    return r;
}
static void places(double x, int p)
{
    vp::guarded(10, [&] {
        const auto s = to_csd(x, p);
        Ev("Csd").num("num", x).i("places", p).ivec("s", codes(s)).num("back", to_decimal(s)).emit();
    });
}
static void fixed(double x, unsigned k)
{
    vp::guarded(10, [&] {
        const auto s = to_csdfixed(x, k);
        Ev("Fixed").num("num", x).i("nnz", k).ivec("s", codes(s)).num("back", to_decimal(s)).emit();
    });
}
static void back(const std::string& s)
{
    vp::guarded(10, [&] { Ev("Back").ivec("s", codes(s)).num("value", to_decimal(s)).emit(); });
}

static double number(vp::Rng& R, bool extreme)
{
    const double sg = R.chance(.5) ? 1. : -1.;
    switch (R.upto(extreme ? 9 : 6))
    {
        case 0: return sg * R.range(0, 40);
        case 1: return sg * R.range(1, 3000) / std::pow(2., R.range(0, 14));
        case 2: return sg * R.real(0., 2.);
        case 3: return sg * R.real(0., 5000.);
        case 4: // around the places where one more digit is needed
        {
            const int n = R.range(-6, 12);
            double x = std::pow(2., n) * (R.chance(.5) ? 2. : 4.) / 3.;
            for (int k = R.range(-3, 3); k != 0; k += k < 0 ? 1 : -1)
                x = std::nextafter(x, k < 0 ? 0. : 1e300);
            return sg * x;
        }
        case 5: // and next to powers of two
        {
            double x = std::pow(2., R.range(-8, 12));
            for (int k = R.range(-2, 2); k != 0; k += k < 0 ? 1 : -1)
                x = std::nextafter(x, k < 0 ? 0. : 1e300);
            return sg * x;
        }
        case 6: return sg * R.real(0., 1.) * std::pow(2., R.range(-40, -5));
        case 7: return sg * R.real(1., 2.) * std::pow(2., R.range(20, 80));
        default: return sg * R.real(1., 2.) * std::pow(2., R.chance(.5) ? R.range(80, 900) : R.range(-900, -80));
    }
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    int k = 0;
    for (auto& t : a.scenarios)
    {
        if (k++ % 500 == 0)
            Ev("Begin").emit();
        vp::Cur c(t);
        const double x = c.d();
        const auto form = c.s();
        const auto lim = c.i();
        if (form == "places")
            places(x, (int)lim);
        else
            fixed(x, (unsigned)lim);
    }
    vp::Rng R(a.seed + 20);
    for (int r = 0; r < (a.thorough ? 40000 : 4000); ++r)
    {
        if (r % 200 == 0)
            Ev("Begin").emit();
        const double x = number(R, r % 8 == 0);
        const int e = x == 0. ? 0 : std::ilogb(x);
        switch (R.upto(3))
        {
            case 0:
            case 1:
            {
                int p = R.chance(.2) ? 0 : R.chance(.7) ? R.range(1, 12) : R.range(13, 70);
                if (e < -5 && R.chance(.7)) // so that something is left of it
                    p = -e + R.range(-1, 60);
                if (e > 80)
                    p = R.range(0, 60);
                places(x, p);
                break;
            }
            default:
                fixed(x, (unsigned)(R.chance(.1) ? 0 : R.chance(.8) ? R.range(1, 6) : R.range(7, 40)));
        }
        if (r % 4 == 0)
        {
            // digits of any kind, adjacent or not, with other characters between them
            std::string s;
            const int n = R.range(0, 30), point = R.chance(.7) ? R.range(0, n) : -1;
            for (int i = 0; i <= n; ++i)
            {
                if (i == point)
                    s += '.';
                if (R.chance(.15))
                    s += " _,x1*"[R.upto(6)];
                if (i < n)
                    s += "+-00"[R.upto(4)];
            }
            back(s);
        }
    }
    return 0;
}
