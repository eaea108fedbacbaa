// Registers holding the simple graphs of xnetwork/classes (C24).
#include "common.hpp"
#include <memory>
#include <xnetwork/classes/digraphs.hpp>
#include <xnetwork/classes/graph.hpp>

using vp::Ev;
using Pair = std::pair<int, int>;

static std::string pairs(const std::vector<Pair>& v)
{
    std::string r = "[";
    for (size_t i = 0; i != v.size(); ++i)
        r += std::string(i ? "," : "") + "[" + std::to_string(v[i].first) + "," + std::to_string(v[i].second) + "]";
    return r + "]";
}
template <typename L>
static std::string listed(const L& v)
{
    std::string r = "[";
    for (size_t i = 0; i != v.size(); ++i)
        r += (i ? "," : "") + v[i];
    return r + "]";
}
static std::string ints(const std::vector<int>& v)
{
    std::string r = "[";
    for (size_t i = 0; i != v.size(); ++i)
        r += (i ? "," : "") + std::to_string(v[i]);
    return r + "]";
}

using Range = decltype(py::range<int>(1));
using D1 = xn::SimpleDiGraphS;
using D2 = xn::DiGraphS<Range, py::set<int>>;
using U1 = xn::SimpleGraph;
using U2 = xn::Graph<Range, py::dict<int, int>>;

template <typename G>
constexpr bool directed = std::is_same_v<G, D1> || std::is_same_v<G, D2>;
template <typename G>
constexpr bool carrying = std::is_same_v<G, D1> || std::is_same_v<G, U2>;

template <typename G>
struct Register
{
    std::unique_ptr<G> g;
    bool known = false;

    template <typename N>
    static std::string from(int u, const N& nbrs)
    {
        std::vector<Pair> r;
        for (auto&& v : nbrs)
            r.emplace_back(u, (int)v);
        return pairs(r);
    }
    std::string show()
    {
        if (!known)
            return "{\"shown\":false}";
        G& x = *g;
        const G& cx = *g;
        const int n = (int)cx.number_of_nodes();
        std::vector<int> nodes;
        bool nullamong = false;
        for (auto v : cx)
        {
            nodes.push_back((int)v);
            nullamong = nullamong || v == cx.null_vertex();
        }
        for (int v = -2; v <= n + 2; ++v)
            if (x.has_node(v) != (v >= 0 && v < n) || x.contains(v) != x.has_node(v))
                nodes.push_back(v);
        if ((int)x.order() != n)
            nodes.push_back(-9);
        if (x.is_directed() != directed<G> || x.is_multigraph())
            nodes.push_back(-8);
        std::vector<std::string> lists, o1, o2, o3;
        if constexpr (directed<G>)
        {
            std::vector<Pair> r, r2;
            for (auto&& e : cx.edges())
            {
                const auto p = G::end_points(e);
                r.emplace_back((int)p.first, (int)p.second);
            }
            lists.push_back(pairs(r));
        }
        std::vector<int> carries, degrees;
        std::vector<Pair> asked;
        std::string has;
        for (int u = 0; u < n; ++u)
        {
            o1.push_back(from(u, x[u]));
            o2.push_back(from(u, cx.adj()[u]));
            if constexpr (directed<G>)
                o3.push_back(from(u, cx.successors(u)));
            degrees.push_back((int)cx.degree(u));
            for (int v = 0; v < n; ++v)
            {
                asked.emplace_back(u, v);
                bool h = x.has_edge(u, v);
                if constexpr (directed<G>)
                    if (h != x.has_successor(u, v))
                        h = !h, degrees.push_back(-1);
                has += std::string(has.empty() ? "" : ",") + (h ? "true" : "false");
                if constexpr (carrying<G>)
                    carries.push_back(h ? (int)cx.adj()[u].at(v) : 0);
            }
        }
        std::vector<std::string> outs {listed(o1), listed(o2)};
        if constexpr (directed<G>)
            outs.push_back(listed(o3));
        return "{\"shown\":true,\"n\":" + std::to_string(n) + ",\"m\":" + std::to_string(cx.number_of_edges()) + ",\"nodes\":" + ints(nodes) +
            ",\"nullamong\":" + (nullamong ? "true" : "false") + ",\"lists\":" + listed(lists) + ",\"outs\":" + listed(outs) +
            ",\"asked\":" + pairs(asked) + ",\"has\":[" + has + "],\"carries\":" + ints(carries) + ",\"degrees\":" + ints(degrees) + "}";
    }
};

template <typename G>
struct Machine
{
    Register<G> r[2];
    int step = 0;
    bool can(const std::string& op, int a, int b, int u, int v) const
    {
        const auto &x = r[a - 1], &y = r[b - 1];
        if (op == "make")
            return true;
        if (op == "add" || op == "bare")
            return x.known && u < (int)x.g->number_of_nodes() && v < (int)x.g->number_of_nodes();
        return op == "clear" ? x.known : a != b && y.known;
    }
    void apply(const std::string& op, int a, int b, int u, int v, int d)
    {
        auto &x = r[a - 1], &y = r[b - 1];
        ++step;
        if (op == "make")
        {
            if (step % 2)
                x.g = std::make_unique<G>(u);
            else
                x.g = std::make_unique<G>(py::range<int>(u));
        }
        else if (op == "add")
        {
            if constexpr (carrying<G>)
            {
                if (step % 3 == 0)
                    x.g->add_edges_from(std::vector<Pair> {{u, v}}, std::vector<int> {d});
                else
                    x.g->add_edge(u, v, d);
                if (step % 4 == 0)
                    x.g->add_edge(u, v); // again, without data: keeps what is there
            }
            else
                x.g->add_edge(u, v);
        }
        else if (op == "bare")
            x.g->add_edge(u, v);
        else if (op == "clear")
            x.g->clear();
        else
            x.g = std::make_unique<G>(std::move(*y.g));
        x.known = true;
        if (op == "move")
        {
            y.known = false;
            if (step % 2)
                y.g.reset(); // the new one stands alone
        }
        Ev("Op").str("op", op).i("r", a).i("q", b).i("u", u).i("v", v).i("d", d).b("says", false).raw("shows", "[" + r[0].show() + "," + r[1].show() + "]").emit();
    }
};

template <typename G>
static void replay(const std::vector<std::string>& t)
{
    vp::guarded(10, [&] {
        Ev("Begin").str("kind", directed<G> ? "simple-directed" : "simple-undirected").emit();
        Machine<G> m;
        vp::Cur c(t);
        c.s();
        const auto len = c.i();
        for (int i = 0; i < len; ++i)
        {
            c.i();
            const auto op = c.s();
            const int r = (int)c.i(), q = (int)c.i(), u = (int)c.i(), v = (int)c.i(), d = (int)c.i();
            m.apply(op, r, q, u, v, d);
        }
    });
}
template <typename G>
static void wander(vp::Rng& R, int len, int n)
{
    vp::guarded(20, [&] {
        Ev("Begin").str("kind", directed<G> ? "simple-directed" : "simple-undirected").emit();
        Machine<G> m;
        m.apply("make", 1, 2, R.range(0, n), 0, 0);
        for (int i = 0; i < len; ++i)
        {
            const std::string op = R.chance(.8) ? (R.chance(.3) ? "bare" : "add") : R.pick(std::vector<std::string> {"make", "clear", "move", "move"});
            const int r = R.range(1, 2), u = R.range(0, op == "make" ? n : n - 1), v = R.range(0, n - 1);
            if (m.can(op, r, 3 - r, u, v))
                m.apply(op, r, 3 - r, u, v, R.range(-9, 9));
        }
    });
}

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    int k = 0;
    for (auto& t : a.scenarios)
    {
        const bool carry = ++k % 2;
        if (t[0] == "simple-directed")
            carry ? replay<D1>(t) : replay<D2>(t);
        else
            carry ? replay<U2>(t) : replay<U1>(t);
    }
    vp::Rng R(a.seed + 25);
    for (int r = 0; r < (a.thorough ? 600 : 60); ++r)
    {
        const bool big = r % 20 >= 17;
        const int len = big ? R.range(60, 160) : R.range(3, 40), n = big ? R.range(15, 40) : R.range(1, 8);
        switch (r % 4)
        {
            case 0: wander<D1>(R, len, n); break;
            case 1: wander<D2>(R, len, n); break;
            case 2: wander<U1>(R, len, n); break;
            default: wander<U2>(R, len, n); break;
        }
    }
    return 0;
}
