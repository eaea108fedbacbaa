// Graphs for the harnesses: what was asked for, and the adaptor built from it.
#pragma once
#include "common.hpp"
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/properties.hpp>
#include <boost/property_map/property_map.hpp>
#include <py2cpp/nx2bgl.hpp>
#include <utility>

namespace boost
{
enum edge_id_tag_t
{
    id_tag
};
BOOST_INSTALL_PROPERTY(edge, id_tag);
} // namespace boost

namespace vp
{
using graph_t = boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS, boost::no_property,
    boost::property<boost::edge_id_tag_t, size_t>>;
using lgraph_t = boost::adjacency_list<boost::listS, boost::vecS, boost::directedS, boost::no_property,
    boost::property<boost::edge_id_tag_t, size_t>>;

struct Net
{
    int n = 1;
    std::vector<std::pair<int, int>> e; // from 0
    std::string json() const
    {
        std::string r = "[";
        for (size_t i = 0; i != e.size(); ++i)
            r += (i ? ",[" : "[") + std::to_string(e[i].first + 1) + "," + std::to_string(e[i].second + 1) + "]";
        return r + "]";
    }
    template <typename G>
    xn::grAdaptor<G> build() const
    {
        G g((size_t)n);
        for (size_t i = 0; i != e.size(); ++i)
            boost::add_edge((size_t)e[i].first, (size_t)e[i].second, boost::property<boost::edge_id_tag_t, size_t>(i), g);
        return xn::grAdaptor<G> {std::move(g)};
    }
};

inline Net net(Cur& c)
{
    Net g;
    g.n = (int)c.i();
    const int m = (int)c.i();
    for (int k = 0; k < m; ++k)
    {
        c.i();
        const int u = (int)c.i() - 1, v = (int)c.i() - 1;
        g.e.emplace_back(u, v);
    }
    return g;
}

inline std::vector<double> nums(Cur& c)
{
    std::vector<double> r((size_t)c.i());
    for (auto& x : r)
        x = c.d();
    return r;
}

// loops: whether an edge may lead back to its own node
inline Net random_net(Rng& R, int n, int m, bool loops = true)
{
    Net g;
    g.n = n;
    if (R.chance(.6)) // a ring first, so that there are long cycles
        for (int k = 0; k < n; ++k)
            if (loops || n > 1)
                g.e.emplace_back(k, (k + 1) % n);
    while ((int)g.e.size() < m)
    {
        if (!g.e.empty() && R.chance(.15))
        {
            g.e.push_back(R.pick(g.e)); // one more edge beside another
            continue;
        }
        const int u = R.upto(n), v = R.upto(n);
        if (u == v && (!loops || n == 1 || R.chance(.7)))
        {
            if (n == 1 && loops)
                g.e.emplace_back(u, v);
            else if (n == 1)
                break;
            continue;
        }
        g.e.emplace_back(u, v);
    }
    for (size_t k = g.e.size(); k > 1; --k)
        std::swap(g.e[k - 1], g.e[(size_t)R.upto((int)k)]);
    return g;
}

template <typename G, typename C>
std::vector<int> ids(const xn::grAdaptor<G>& g, const C& cycle)
{
    std::vector<int> r;
    for (auto&& e : cycle)
        r.push_back((int)boost::get(boost::id_tag, g, e) + 1);
    return r;
}
} // namespace vp
