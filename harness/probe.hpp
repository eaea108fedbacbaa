// Observes a search space through its public interface only.  On a copy, a cut
// that no point can satisfy is refused, and the reported size is g'Pg, where P
// is the shape of the space: {x : (x - xc)' inv(P) (x - xc) <= 1}.
#pragma once
#include <cmath>
#include <ellcpp/cut_config.hpp>
#include <tuple>
#include <xtensor/xarray.hpp>

namespace vp
{
using PArr = xt::xarray<double, xt::layout_type::row_major>;

template <typename E>
double quad(const E& e, const PArr& g)
{
    auto c = e.copy();
    const auto r = c.update(std::make_tuple(g, 1e200));
    return std::get<1>(r);
}

template <typename E>
PArr shape(const E& e)
{
    const size_t n = e.xc().size();
    PArr P = xt::zeros<double>({n, n});
    PArr s = xt::ones<double>({n});
    for (size_t i = 0; i != n; ++i)
    {
        PArr g = xt::zeros<double>({n});
        g(i) = 1.;
        P(i, i) = quad(e, g);
        if (P(i, i) > 0) // a power of two near 1/sqrt(P(i, i)): scales exactly
            s(i) = std::exp2(-std::floor(std::log2(P(i, i)) / 2));
    }
    for (size_t i = 0; i != n; ++i)
        for (size_t j = i + 1; j != n; ++j)
        {
            PArr g = xt::zeros<double>({n});
            g(i) = s(i);
            g(j) = s(j);
            const double plus = quad(e, g);
            g(j) = -s(j);
            const double minus = quad(e, g);
            P(i, j) = P(j, i) = (plus - minus) / 4 / s(i) / s(j);
        }
    return P;
}
} // namespace vp
