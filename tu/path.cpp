// instantiates sequence distances, path helpers and neighbours for analysis (never run)
#include <cstdint>
#include <functional>
#include <queue>
#include <random>
#include <string>
#include <vector>
#include "arc_utilities/eigen_helpers.hpp"
#include "arc_utilities/get_neighbours.hpp"
#include "arc_utilities/path_utils.hpp"
#include "arc_utilities/simple_dtw.hpp"
#include "arc_utilities/simple_hausdorff_distance.hpp"

namespace tu {
struct Item {
  double v;
};
using Items = std::vector<Item>;
using Dist = std::function<double(const Item&, const Item&)>;
using Interp = std::function<Item(const Item&, const Item&, const double)>;
using Valid = std::function<bool(const Item&, const Item&)>;
double seqs(const Items& a, const Items& b, const Dist& d) {
  simple_dtw::SimpleDTW<Item, Item, Dist> x, y(3, 4);
  return x.EvaluateWarpingCost(a, b, d) + y.EvaluateWarpingCost(a, b, d) + simple_dtw::ComputeDTWDistance(a, b, d) +
         simple_hausdorff_distance::SimpleHausdorffDistance::ComputeDistance(a, b, d);
}
void paths(const Items& p, const Dist& d, const Interp& i, const Valid& v, std::mt19937_64& g) {
  path_utils::ShortcutSmoothPath(p, 3u, 4u, 0.5, v, g);
  path_utils::ResamplePath(p, 0.1, d, i);
  path_utils::ResamplePathPartial(p, 1, 5, 0.1, d, i);
  path_utils::UpsamplePathPartial(p, 1, 5, (ssize_t)7, d, i);
  path_utils::UpsamplePath(p, (ssize_t)7, d, i);
}
void cells(const Eigen::Vector2d& a, const Eigen::Vector3d& b, const std::function<Eigen::Vector2d(const Eigen::Vector2d&)>& r2, const std::function<bool(const Eigen::Vector2d&)>& v2,
           const std::function<Eigen::Vector3d(const Eigen::Vector3d&)>& r3, const std::function<bool(const Eigen::Vector3d&)>& v3) {
  using namespace arc_utilities::GetNeighbours;
  TwoDimensional8Connected<Eigen::Vector2d, double>(a, 0.0, 1.0, 0.0, 1.0, 0.1, r2, v2);
  ThreeDimensional8Connected<Eigen::Vector3d, double>(b, 0.0, 1.0, 0.0, 1.0, 0.0, 1.0, 0.1, r3, v3);
}
}  // namespace tu
