// Registers holding py::set and py::dict, ranges and enumerations (C23).
#include "common.hpp"
#include <list>
#include <map>
#include <py2cpp/py2cpp.hpp>
#include <string>

using vp::Ev;

template <typename K>
struct Key;
template <>
struct Key<int>
{
    static int of(int k) { return k; }
    static int back(int k) { return k; }
};
template <>
struct Key<std::string>
{
    static std::string of(int k) { return "key-with-a-long-name#" + std::to_string(k); }
    static int back(const std::string& s) { return std::atoi(s.c_str() + s.rfind('#') + 1); }
};

static std::string ints(const std::vector<int>& v)
{
    std::string r = "[";
    for (size_t i = 0; i != v.size(); ++i)
        r += (i ? "," : "") + std::to_string(v[i]);
    return r + "]";
}
static std::string bools(const std::vector<bool>& v)
{
    std::string r = "[";
    for (size_t i = 0; i != v.size(); ++i)
        r += std::string(i ? "," : "") + (v[i] ? "true" : "false");
    return r + "]";
}
static std::string pairs(const std::vector<std::pair<int, int>>& v)
{
    std::string r = "[";
    for (size_t i = 0; i != v.size(); ++i)
        r += std::string(i ? "," : "") + "[" + std::to_string(v[i].first) + "," + std::to_string(v[i].second) + "]";
    return r + "]";
}

template <typename K>
struct Machine
{
    using S = py::set<K>;
    using D = py::dict<K, int>;
    std::vector<S> s;
    std::vector<D> d;
    std::vector<bool> sk {true, true}, dk {true, true};
    std::vector<int> asked;

    explicit Machine(std::vector<int> a)
        : asked(std::move(a))
    {
        s.emplace_back();
        s.emplace_back();
        d.emplace_back();
        d.emplace_back();
    }
    bool can(const std::string& kind, const std::string& op, int r, int q) const
    {
        const auto& k = kind == "set" ? sk : dk;
        if (op == "make" || op == "clear")
            return true;
        if (op == "copy" || op == "move")
            return r != q && k[q - 1];
        return k[r - 1];
    }
    std::string showset(const S& x) const
    {
        std::vector<int> items;
        for (const auto& k : x)
            items.push_back(Key<K>::back(k));
        std::vector<bool> has, less;
        for (int k : asked)
        {
            has.push_back(x.contains(Key<K>::of(k)));
            less.push_back(Key<K>::of(k) < x);
        }
        return "{\"shown\":true,\"items\":" + ints(items) + ",\"len\":" + std::to_string(py::len(x)) + ",\"asked\":" + ints(asked) +
            ",\"has\":" + bools(has) + ",\"less\":" + bools(less) + "}";
    }
    std::string showmap(D& x) const
    {
        const D& cx = x;
        std::vector<int> keys, get, at;
        std::vector<std::pair<int, int>> items, via;
        for (const auto& k : cx)
            keys.push_back(Key<K>::back(k));
        for (const auto& p : cx.items())
            items.emplace_back(Key<K>::back(p.first), p.second);
        for (auto& p : x.items())
            via.emplace_back(Key<K>::back(p.first), p.second);
        std::vector<bool> has, less, found;
        for (int k : asked)
        {
            const auto key = Key<K>::of(k);
            has.push_back(cx.contains(key));
            less.push_back(key < cx);
            get.push_back(x.get(key, -77));
            try
            {
                at.push_back(cx[key]);
                found.push_back(true);
            }
            catch (const std::out_of_range&)
            {
                at.push_back(0);
                found.push_back(false);
            }
        }
        return "{\"shown\":true,\"keys\":" + ints(keys) + ",\"items\":" + pairs(items) + ",\"via\":" + pairs(via) +
            ",\"len\":" + std::to_string(py::len(cx)) + ",\"asked\":" + ints(asked) + ",\"has\":" + bools(has) + ",\"less\":" + bools(less) +
            ",\"get\":" + ints(get) + ",\"default\":-77,\"found\":" + bools(found) + ",\"at\":" + ints(at) + "}";
    }
    void apply(const std::string& kind, const std::string& op, int r, int q, int k, int v)
    {
        const auto key = Key<K>::of(k);
        int got = 0;
        if (kind == "set")
        {
            auto& x = s[r - 1];
            if (op == "make")
            {
                const std::vector<K> both {key, Key<K>::of(v)};
                if ((k + v) % 2)
                    x = S {key, Key<K>::of(v)};
                else
                    x = S(both.begin(), both.end());
            }
            else if (op == "clear")
                x.clear();
            else if (op == "insert")
                x.insert(key);
            else if (op == "erase")
                x.erase(key);
            else if (op == "copy")
                x = s[q - 1].copy();
            else
                x = std::move(s[q - 1]);
            sk[r - 1] = true;
            if (op == "move")
                sk[q - 1] = false;
        }
        else
        {
            auto& x = d[r - 1];
            if (op == "make")
                x = D {{key, v}};
            else if (op == "clear")
                x.clear();
            else if (op == "put")
                x[key] = v;
            else if (op == "insert")
                x.insert({key, v});
            else if (op == "touch")
                got = x[key];
            else if (op == "erase")
                x.erase(key);
            else if (op == "copy")
                x = d[q - 1].copy();
            else
            {
                D t(std::move(d[q - 1]));
                x = std::move(t);
            }
            dk[r - 1] = true;
            if (op == "move")
                dk[q - 1] = false;
        }
        std::string ss, dd;
        for (int i = 0; i != 2; ++i)
        {
            ss += (i ? "," : "") + (sk[i] ? showset(s[i]) : std::string("{\"shown\":false}"));
            dd += (i ? "," : "") + (dk[i] ? showmap(d[i]) : std::string("{\"shown\":false}"));
        }
        Ev("Op").str("kind", kind).str("op", op).i("r", r).i("q", q).i("k", k).i("v", v).i("got", got).raw("sets", "[" + ss + "]").raw("maps", "[" + dd + "]").emit();
    }
};

template <typename T>
static void ranged(T a, T b, bool from0)
{
    vp::guarded(10, [&] {
        const auto R = from0 ? py::range(b) : py::range(a, b);
        std::vector<int> items, nth, asked;
        for (auto i : R)
        {
            items.push_back((int)i);
            if (items.size() > 500)
                throw vp::Overrun();
        }
        for (size_t i = 0; i != R.size() && i < 500; ++i)
            nth.push_back((int)R[i]);
        std::vector<bool> has;
        for (long long k = (long long)std::min(a, b) - 2; k <= (long long)std::max(a, b) + 2; ++k)
            if (k >= 0 || std::is_signed<T>::value)
            {
                asked.push_back((int)k);
                has.push_back(R.contains((T)k));
            }
        Ev("Range").i("a", (long long)a).i("b", (long long)b).ivec("items", items).ivec("nth", nth).i("size", (long long)R.size()).b("empty", R.empty()).ivec("asked", asked).raw("has", bools(has)).emit();
    });
}
template <typename L>
static void enumerated(const std::vector<int>& v)
{
    vp::guarded(10, [&] {
        L x(v.begin(), v.end());
        std::vector<std::pair<int, int>> p, after;
        for (auto&& t : py::enumerate(x))
            p.emplace_back((int)std::get<0>(t), (int)std::get<1>(t));
        const L& cx = x;
        std::vector<std::pair<int, int>> cp;
        for (auto&& t : py::enumerate(cx))
            cp.emplace_back((int)std::get<0>(t), (int)std::get<1>(t));
        for (auto&& t : py::enumerate(x))
            std::get<1>(t) = 2 * std::get<1>(t) + (int)std::get<0>(t); // through to the list
        std::vector<int> now(x.begin(), x.end());
        for (auto&& t : py::enumerate(L(v.begin(), v.end())))
            after.emplace_back((int)std::get<0>(t), (int)std::get<1>(t)); // of a temporary
        Ev("Enum").ivec("list", v).raw("pairs", pairs(p)).raw("cpairs", pairs(cp)).raw("tpairs", pairs(after)).ivec("now", now).emit();
    });
}

template <typename K>
static void replay(const std::vector<std::string>& t, const std::vector<int>& asked)
{
    vp::guarded(10, [&] {
        Ev("Begin").emit();
        Machine<K> m(asked);
        vp::Cur c(t);
        const auto kind = c.s();
        const auto len = c.i();
        for (int i = 0; i < len; ++i)
        {
            c.i();
            const auto op = c.s();
            const int r = (int)c.i(), q = (int)c.i(), k = (int)c.i(), v = (int)c.i();
            m.apply(kind, op, r, q, k, v);
        }
    });
}
template <typename K>
static void wander(vp::Rng& R, int len, int keys)
{
    vp::guarded(20, [&] {
        Ev("Begin").emit();
        std::vector<int> asked;
        for (int k = -1; k <= keys; ++k)
            asked.push_back(k);
        Machine<K> m(asked);
        const std::vector<std::string> so {"make", "insert", "insert", "insert", "insert", "erase", "clear", "copy", "move"};
        const std::vector<std::string> mo {"make", "put", "put", "put", "insert", "touch", "erase", "clear", "copy", "move"};
        for (int i = 0; i < len; ++i)
        {
            const bool set = R.chance(.4);
            std::string op = R.pick(set ? so : mo);
            if ((op == "clear" || op == "make") && R.chance(.7))
                op = "insert";
            const int r = R.range(1, 2), q = 3 - r;
            if (m.can(set ? "set" : "dict", op, r, q))
                m.apply(set ? "set" : "dict", op, r, q, R.range(0, keys), R.range(-5, 9));
        }
    });
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    vp::Rng R(a.seed + 23);
    int k = 0;
    for (auto& t : a.scenarios)
    {
        if (k++ % 3 == 0)
            replay<std::string>(t, {0, 1, 2, 3});
        else
            replay<int>(t, {0, 1, 2, 3});
    }
    for (int r = 0; r < (a.thorough ? 800 : 60); ++r)
    {
        if (r % 3 == 0)
            wander<std::string>(R, R.range(5, 60), R.range(2, 40));
        else
            wander<int>(R, R.range(5, 60), R.range(2, 40));
    }
    Ev("Begin").emit();
    const int m = a.thorough ? 9 : 6;
    for (int lo = -m; lo <= m; ++lo)
        for (int hi = -m; hi <= m; ++hi)
        {
            ranged<int>(lo, hi, false);
            if (lo >= 0 && hi >= 0)
            {
                ranged<size_t>((size_t)lo, (size_t)hi, false);
                ranged<unsigned char>((unsigned char)(lo + 240), (unsigned char)(hi + 240), false);
            }
            ranged<long>(lo * 100000L, lo * 100000L + hi, false);
            if (lo == 0)
            {
                ranged<int>(0, hi, true);
                if (hi >= 0)
                    ranged<size_t>(0, (size_t)hi, true);
            }
        }
    for (int r = 0; r < 40; ++r)
    {
        std::vector<int> v;
        for (int n = R.upto(9); n > 0; --n)
            v.push_back(R.range(-50, 50));
        enumerated<std::vector<int>>(v);
        enumerated<std::list<int>>(v);
    }
    return 0;
}
