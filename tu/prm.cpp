// instantiates the roadmap planner for analysis (never run)
#include <cstdint>
#include <string>
#include <Eigen/Geometry>
#include <Eigen/StdVector>
#include "arc_utilities/eigen_helpers.hpp"
#include "arc_utilities/simple_prm_planner.hpp"

namespace tu {
struct State { double a; };
using G = arc_dijkstras::Graph<State>;
using P = simple_prm_planner::SimpleGeometricPrmPlanner;
using D = std::function<double(const State&, const State&)>;
using B = std::function<bool(const State&, const State&)>;
void all(G& g, const State& s, const std::vector<State>& ss, const std::function<State(void)>& sample, const D& d, const std::function<bool(const State&)>& v,
         const B& ev, const std::function<bool(void)>& stop, size_t K, std::mt19937_64& rng) {
  P::ExtendRoadMap<State>(g, sample, d, v, ev, stop, K, true, false);
  P::BuildRoadMap<State>(sample, d, v, ev, stop, K, true, false);
  P::UpdateRoadMapEdges<State>(g, ev, d);
  P::QueryPathAndAddNodesMultiStartSingleGoal<State>(ss, s, g, ev, d, K, true, false);
  P::QueryPathAndAddNodesSingleStartSingleGoal<State>(s, s, g, ev, d, K, true, false, true);
  P::LazyQueryPathAndAddNodesSingleStartSingleGoal<State>(s, s, g, ev, d, K, true, false, true);
  P::QueryPathAndAddNodesSingleStartSingleGoalRandomWalk<State>(s, s, rng, g, ev, d, K, true);
  P::QueryPathMultiStartMultiGoal<State>(ss, ss, g, ev, d, K, true, false);
  P::QueryPathMultiStartSingleGoal<State>(ss, s, g, ev, d, K, true, false);
  P::QueryPathSingleStartSingleGoal<State>(s, s, g, ev, d, K, true, false, true);
  P::LazyQueryPathSingleStartSingleGoal<State>(s, s, g, ev, d, K, true, false, true);
}
}  // namespace tu
