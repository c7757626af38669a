// The installed nanoflann (1.5.4) renamed what ndt_2d uses (1.4: SearchParams, and pairs as
// radius-search results).  This wraps the real library under the names of 1.4.
#pragma once
#include <utility>
#include <vector>
#define nanoflann nanoflann_installed
#include_next <nanoflann.hpp>
#undef nanoflann
namespace nanoflann
{
using namespace nanoflann_installed;  // NOLINT
struct SearchParams : nanoflann_installed::SearchParameters
{
  SearchParams(int /*ignored*/ = 32, float eps = 0, bool sorted = true)
  : nanoflann_installed::SearchParameters(eps, sorted) {}
};
template<class Distance, class Adaptor, int32_t DIM = -1, class Index = uint32_t>
class KDTreeSingleIndexAdaptor
  : public nanoflann_installed::KDTreeSingleIndexAdaptor<Distance, Adaptor, DIM, Index>
{
  using Base = nanoflann_installed::KDTreeSingleIndexAdaptor<Distance, Adaptor, DIM, Index>;
public:
  KDTreeSingleIndexAdaptor(int d, const Adaptor & a,
    const nanoflann_installed::KDTreeSingleIndexAdaptorParams & p = {})
  : Base(d, a, p) {}
  template<class I, class D>
  size_t radiusSearch(const double * q, const double & r, std::vector<std::pair<I, D>> & out,
    const nanoflann_installed::SearchParameters & p) const
  {
    std::vector<nanoflann_installed::ResultItem<Index, double>> res;
    size_t n = Base::radiusSearch(q, r, res, p);
    out.clear();
    for (auto & e : res) {out.emplace_back(static_cast<I>(e.first), static_cast<D>(e.second));}
    return n;
  }
  using Base::radiusSearch;
};
}
