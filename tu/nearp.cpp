// -fopenmp: the same instantiations with OpenMP on (never run)
#include <cstdint>
#include <string>
#include "arc_utilities/arc_helpers.hpp"

namespace tu {
struct P { double a; };
struct Q { double a; };
void all(const std::vector<P>& ps, const std::vector<Q>& qs, const Q& q, const std::function<double(const P&, const Q&)>& d, const std::function<double(const P&, const P&)>& e, size_t K) {
  arc_helpers::GetKNearestNeighborsSerial(ps, q, d, K);
  arc_helpers::GetKNearestNeighborsParallel(ps, q, d, K);
  arc_helpers::BuildDistanceMatrixSerial(ps, e);
  arc_helpers::BuildDistanceMatrixParallel(ps, e);
  arc_helpers::BuildDistanceMatrixSerial(ps, qs, d);
  arc_helpers::BuildDistanceMatrixParallel(ps, qs, d);
}
}  // namespace tu
