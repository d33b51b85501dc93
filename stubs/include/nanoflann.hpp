// The repository is written against nanoflann 1.4 (SearchParams, std::pair results); the
// installed 1.5 renamed both. This wrapper restores the 1.4 names on top of the real library.
#ifndef VERIF_NANOFLANN_WRAP
#define VERIF_NANOFLANN_WRAP
#include_next <nanoflann.hpp>
#include <utility>
#include <vector>
#if NANOFLANN_VERSION >= 0x150
namespace nanoflann
{
struct SearchParams : public SearchParameters
{
  SearchParams(int /*checks_IGNORED_*/ = 32, float eps_ = 0, bool sorted_ = true)
  : SearchParameters(eps_, sorted_) {}
};
namespace verif_compat
{
template <typename Distance, class DatasetAdaptor, int32_t DIM = -1, typename IndexType = uint32_t>
class KDTree14 : public ::nanoflann::KDTreeSingleIndexAdaptor<Distance, DatasetAdaptor, DIM, IndexType>
{
public:
  using Real = ::nanoflann::KDTreeSingleIndexAdaptor<Distance, DatasetAdaptor, DIM, IndexType>;
  using Real::Real;
  using Real::radiusSearch;
  using ElementType = typename Real::ElementType;
  using DistanceType = typename Real::DistanceType;
  template <typename I, typename D>
  size_t radiusSearch(const ElementType * q, const DistanceType & radius,
                      std::vector<std::pair<I, D>> & out,
                      const SearchParameters & params = SearchParams()) const
  {
    std::vector<ResultItem<IndexType, DistanceType>> r;
    Real::radiusSearch(q, radius, r, params);
    out.clear();
    for (auto & x : r) out.emplace_back(static_cast<I>(x.first), static_cast<D>(x.second));
    return out.size();
  }
};
}  // namespace verif_compat
}  // namespace nanoflann
#define KDTreeSingleIndexAdaptor verif_compat::KDTree14
#endif
#endif
