// Shared by the harnesses: the event log, the scenario reader, seeded choices.
#pragma once
#include <csignal>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <sys/time.h>
#include <vector>

namespace vp
{
inline FILE* out = nullptr;

// one event = one JSON object per line, flushed, so that a crash loses nothing
class Ev
{
    std::string s;

  public:
    explicit Ev(const char* name) { s = std::string("{\"e\":\"") + name + "\""; }
    static std::string q(double x)
    {
        char b[64];
        std::snprintf(b, sizeof b, "\"%.17g\"", x);
        return b;
    }
    Ev& raw(const char* k, const std::string& v)
    {
        s += std::string(",\"") + k + "\":" + v;
        return *this;
    }
    Ev& num(const char* k, double x) { return raw(k, q(x)); }
    Ev& i(const char* k, long long x)
    {
        if (x > 2000000000LL || x < -2000000000LL)
            return raw(k, "\"" + std::to_string(x) + "\"");
        return raw(k, std::to_string(x));
    }
    Ev& b(const char* k, bool x) { return raw(k, x ? "true" : "false"); }
    Ev& str(const char* k, const std::string& x)
    {
        std::string r = "\"";
        for (char c : x)
        {
            if (c == '"' || c == '\\')
                r += '\\';
            if (static_cast<unsigned char>(c) < 32)
            {
                r += '?';
                continue;
            }
            r += c;
        }
        return raw(k, r + "\"");
    }
    template <typename C>
    Ev& vec(const char* k, const C& c)
    {
        return raw(k, list(c));
    }
    template <typename C>
    static std::string list(const C& c)
    {
        std::string r = "[";
        bool first = true;
        for (double x : c)
        {
            r += (first ? "" : ",") + q(x);
            first = false;
        }
        return r + "]";
    }
    template <typename C>
    Ev& ivec(const char* k, const C& c)
    {
        std::string r = "[";
        bool first = true;
        for (auto&& x : c)
        {
            r += (first ? "" : ",") + std::to_string((long long)x);
            first = false;
        }
        return raw(k, r + "]");
    }
    // any matrix with shape() and (i, j)
    template <typename M>
    static std::string mlist(const M& m)
    {
        std::string r = "[";
        for (size_t i = 0; i != m.shape()[0]; ++i)
        {
            r += i ? ",[" : "[";
            for (size_t j = 0; j != m.shape()[1]; ++j)
                r += (j ? "," : "") + q(m(i, j));
            r += "]";
        }
        return r + "]";
    }
    template <typename M>
    Ev& mat(const char* k, const M& m)
    {
        return raw(k, mlist(m));
    }
    void emit()
    {
        s += "}\n";
        std::fputs(s.c_str(), out);
        std::fflush(out);
    }
};

// a mock that is called more often than any specification allows
struct Overrun : std::runtime_error
{
    Overrun() : std::runtime_error("overrun") { }
};

inline void arm(int seconds)
{
    struct itimerval v {};
    v.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &v, nullptr); // cpu time: a busy machine is no hang
}
inline void on_alarm(int)
{
    static const char m[] = "hang\n";
    (void)!write(1, m, sizeof m - 1);
    _exit(9);
}

struct Args
{
    std::string part;
    unsigned seed = 1;
    bool thorough = false;
    std::vector<std::vector<std::string>> scenarios;
};

// argv: trace part seed tier [scenario file]
inline Args start(int argc, char** argv)
{
    if (argc < 5)
    {
        std::puts("usage: harness trace part seed tier [scenarios]");
        _exit(3);
    }
    out = std::fopen(argv[1], "w");
    if (!out)
    {
        std::puts("cannot write the trace");
        _exit(3);
    }
    Args a;
    a.part = argv[2];
    a.seed = (unsigned)std::strtoul(argv[3], nullptr, 10);
    a.thorough = std::string(argv[4]) == "thorough";
    if (argc > 5)
    {
        std::ifstream f(argv[5]);
        std::string line;
        while (std::getline(f, line))
        {
            std::istringstream is(line);
            std::vector<std::string> t;
            for (std::string w; is >> w;)
                t.push_back(w);
            if (!t.empty())
                a.scenarios.push_back(std::move(t));
        }
    }
    std::signal(SIGPROF, on_alarm);
    return a;
}

// reads a flattened scenario (see lib/checks.py: flatten)
class Cur
{
    const std::vector<std::string>& t;
    size_t k = 0;

  public:
    explicit Cur(const std::vector<std::string>& t_) : t {t_} { }
    const std::string& s()
    {
        if (k >= t.size())
        {
            std::puts("bad scenario");
            _exit(3);
        }
        return t[k++];
    }
    long long i() { return std::strtoll(s().c_str(), nullptr, 10); }
    double d() { return std::strtod(s().c_str(), nullptr); }
    bool b() { return s() == "1"; }
    bool more() const { return k < t.size(); }
    void drop() { k = t.size(); } // the rest is not wanted
    // a scenario that is only partly read would be replayed only partly
    ~Cur()
    {
        if (more() && !std::uncaught_exceptions())
        {
            std::puts("bad scenario: not read to its end");
            _exit(3);
        }
    }
};

// small deterministic generator, the same on every machine
class Rng
{
    uint64_t s;

  public:
    // mixed first, or the streams of neighbouring seeds would overlap
    explicit Rng(uint64_t seed) : s {mix(seed * 0xD1342543DE82EF95ull + 0x1234567ull)} { }
    static uint64_t mix(uint64_t z)
    {
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t next() { return mix(s += 0x9E3779B97F4A7C15ull); }
    int upto(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); } // 0..n-1
    int range(int a, int b) { return a + upto(b - a + 1); }               // a..b
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; } // [0,1)
    double real(double a, double b) { return a + (b - a) * unit(); }
    bool chance(double p) { return unit() < p; }
    template <typename T>
    const T& pick(const std::vector<T>& v)
    {
        return v[(size_t)upto((int)v.size())];
    }
};

// runs one case; an exception that escapes the library is an event too
template <typename F>
void guarded(int seconds, F&& f)
{
    arm(seconds);
    try
    {
        f();
    }
    catch (const Overrun&)
    {
        Ev("Overrun").emit();
    }
    catch (const std::exception& e)
    {
        Ev("Threw").str("what", std::string(e.what()).substr(0, 80)).emit();
    }
    arm(0);
}
} // namespace vp
