// Registers holding xn::grAdaptor graphs, with views opened early (C24).
#include "common.hpp"
#include <boost/graph/adjacency_list.hpp>
#include <memory>
#include <py2cpp/nx2bgl.hpp>

using vp::Ev;
using Pair = std::pair<int, int>;

static std::string pairs(const std::vector<Pair>& v)
{
    std::string r = "[";
    for (size_t i = 0; i != v.size(); ++i)
        r += std::string(i ? "," : "") + "[" + std::to_string(v[i].first) + "," + std::to_string(v[i].second) + "]";
    return r + "]";
}
template <typename L>
static std::string listed(const L& v)
{
    std::string r = "[";
    for (size_t i = 0; i != v.size(); ++i)
        r += (i ? "," : "") + v[i];
    return r + "]";
}
static std::string ints(const std::vector<int>& v)
{
    std::string r = "[";
    for (size_t i = 0; i != v.size(); ++i)
        r += (i ? "," : "") + std::to_string(v[i]);
    return r + "]";
}

template <typename G>
struct Register
{
    using A = xn::grAdaptor<G>;
    using EV = decltype(std::declval<const A&>().edges());
    using AV = decltype(std::declval<const A&>().neighbors(0));
    std::unique_ptr<A> g;
    std::unique_ptr<EV> early;
    std::vector<std::pair<int, std::unique_ptr<AV>>> nbrs;
    bool known = false;

    void open()
    {
        early = std::make_unique<EV>(g->edges());
        nbrs.clear();
        watch();
    }
    void watch()
    {
        for (int v = (int)nbrs.size(); v < (int)g->number_of_nodes(); ++v)
            nbrs.emplace_back(v, std::make_unique<AV>(g->neighbors((size_t)v)));
    }
    void drop()
    {
        early.reset();
        nbrs.clear();
        g.reset();
    }
    template <typename V>
    std::string edges(const V& view) const
    {
        std::vector<Pair> r;
        for (auto e : view)
            r.emplace_back((int)g->source(e), (int)g->target(e));
        return pairs(r);
    }
    std::string show()
    {
        if (!known)
            return "{\"shown\":false}";
        std::vector<int> nodes;
        bool nullamong = false;
        for (auto v : *g)
        {
            nodes.push_back((int)v);
            nullamong = nullamong || v == A::null_vertex();
        }
        std::vector<int> cnodes;
        for (auto it = g->cbegin(); it != g->cend(); ++it)
            cnodes.push_back((int)*it);
        if (cnodes != nodes)
            nodes.push_back(-1);
        std::vector<std::string> lists {edges(g->edges()), edges(*early)};
        std::vector<Pair> ends;
        for (auto e : g->edges())
        {
            auto [s, t] = g->end_points(e);
            ends.emplace_back((int)s, (int)t);
        }
        lists.push_back(pairs(ends));
        ends.clear();
        const auto ev = g->edges();
        for (auto it = ev.cbegin(); it != ev.cend(); ++it)
            ends.emplace_back((int)g->source(*it), (int)g->target(*it));
        lists.push_back(pairs(ends));
        std::vector<std::string> now, then, constant;
        for (int v = 0; v < (int)g->number_of_nodes(); ++v)
        {
            now.push_back(edges(g->neighbors((size_t)v)));
            std::vector<Pair> r;
            const auto nb = g->neighbors((size_t)v);
            for (auto it = nb.cbegin(); it != nb.cend(); ++it)
            {
                auto [s, t] = g->end_points(*it);
                r.emplace_back((int)s, (int)t);
            }
            constant.push_back(pairs(r));
        }
        watch();
        for (auto& p : nbrs)
            if (p.first < (int)g->number_of_nodes())
                then.push_back(edges(*p.second));
        return "{\"shown\":true,\"n\":" + std::to_string(g->number_of_nodes()) + ",\"m\":" + std::to_string(g->number_of_edges()) + ",\"nodes\":" +
            ints(nodes) + ",\"nullamong\":" + (nullamong ? "true" : "false") + ",\"lists\":" + listed(lists) + ",\"outs\":" +
            listed(std::vector<std::string> {listed(now), listed(then), listed(constant)}) + ",\"asked\":[],\"has\":[],\"carries\":[],\"degrees\":[]}";
    }
};

template <typename G>
struct Machine
{
    Register<G> r[2];
    int step = 0;
    bool can(const std::string& op, int a, int b) const
    {
        if (op == "make")
            return true;
        return op == "add" ? r[a - 1].known : a != b && r[b - 1].known;
    }
    void apply(const std::string& op, int a, int b, int u, int v)
    {
        auto &x = r[a - 1], &y = r[b - 1];
        bool says = false, added = false;
        int s = 0, t = 0;
        ++step;
        if (op == "make")
        {
            x.drop();
            x.g = std::make_unique<xn::grAdaptor<G>>(G((size_t)u));
            x.open();
        }
        else if (op == "add")
        {
            const auto e = x.g->add_edge((size_t)u, (size_t)v);
            says = true;
            added = e.second;
            const auto p = x.g->end_points(e.first);
            s = (int)p.first;
            t = (int)p.second;
        }
        else
        {
            const bool into = x.known && step % 2;
            if (op == "copy" && into)
                *x.g = *y.g; // the views stay open
            else if (op == "copy")
            {
                x.drop();
                x.g = std::make_unique<xn::grAdaptor<G>>(*y.g);
                x.open();
            }
            else if (into)
                *x.g = std::move(*y.g);
            else
            {
                x.drop();
                x.g = std::make_unique<xn::grAdaptor<G>>(std::move(*y.g));
                x.open();
            }
        }
        x.known = true;
        if (op == "move")
            y.known = false;
        Ev("Op").str("op", op).i("r", a).i("q", b).i("u", u).i("v", v).i("d", step).b("says", says).b("added", added).raw("ends", pairs({{s, t}}).substr(1, pairs({{s, t}}).size() - 2)).raw("shows", "[" + r[0].show() + "," + r[1].show() + "]").emit();
    }
};

template <typename G>
static void replay(const std::vector<std::string>& t, const char* kind)
{
    vp::guarded(10, [&] {
        Ev("Begin").str("kind", kind).emit();
        Machine<G> m;
        vp::Cur c(t);
        c.s();
        const auto len = c.i();
        for (int i = 0; i < len; ++i)
        {
            c.i();
            const auto op = c.s();
            const int r = (int)c.i(), q = (int)c.i(), u = (int)c.i(), v = (int)c.i();
            c.i();
            m.apply(op, r, q, u, v);
        }
    });
}
template <typename G>
static void wander(vp::Rng& R, const char* kind, int len, int n)
{
    vp::guarded(20, [&] {
        Ev("Begin").str("kind", kind).emit();
        Machine<G> m;
        m.apply("make", 1, 2, R.range(0, n), 0);
        for (int i = 0; i < len; ++i)
        {
            const std::string op = R.chance(.75) ? "add" : R.pick(std::vector<std::string> {"make", "copy", "copy", "move"});
            const int r = R.range(1, 2);
            if (m.can(op, r, 3 - r))
                m.apply(op, r, 3 - r, R.range(0, op == "make" ? n : n - 1), op == "make" ? 0 : R.range(0, n - 1));
        }
    });
}

using namespace boost;
using weight = property<edge_weight_t, double>;
using D1 = adjacency_list<vecS, vecS, directedS>;
using D2 = adjacency_list<listS, vecS, directedS, no_property, weight>;
using D3 = adjacency_list<vecS, vecS, bidirectionalS, no_property, weight>;
using U1 = adjacency_list<vecS, vecS, undirectedS>;
using U2 = adjacency_list<listS, vecS, undirectedS, no_property, weight>;
using S1 = adjacency_list<setS, vecS, directedS>;

int main(int argc, char** argv)
{
    auto a = vp::start(argc, argv);
    int k = 0;
    for (auto& t : a.scenarios)
    {
        ++k;
        if (t[0] == "multi-directed")
        {
            if (k % 3 == 0)
                replay<D1>(t, "multi-directed");
            else if (k % 3 == 1)
                replay<D2>(t, "multi-directed");
            else
                replay<D3>(t, "multi-directed");
        }
        else if (k % 2)
            replay<U1>(t, "multi-undirected");
        else
            replay<U2>(t, "multi-undirected");
    }
    vp::Rng R(a.seed + 24);
    for (int r = 0; r < (a.thorough ? 600 : 60); ++r)
    {
        const bool big = r % 24 >= 18;
        const int len = big ? R.range(60, 160) : R.range(3, 40), n = big ? R.range(12, 40) : R.range(1, 9);
        switch (r % 6)
        {
            case 0: wander<D1>(R, "multi-directed", len, n); break;
            case 1: wander<D2>(R, "multi-directed", len, n); break;
            case 2: wander<D3>(R, "multi-directed", len, n); break;
            case 3: wander<U1>(R, "multi-undirected", len, n); break;
            case 4: wander<U2>(R, "multi-undirected", len, n); break;
            default: wander<S1>(R, "set-directed", len, n); break;
        }
    }
    return 0;
}
