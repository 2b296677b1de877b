// instantiates the graph and its searches for analysis (never run)
#include <cstdint>
#include <string>
#include "arc_utilities/dijkstras.hpp"
#include "arc_utilities/simple_astar_planner.hpp"

namespace tu {
struct Val { double a; };
}
template class arc_dijkstras::GraphNode<tu::Val>;
template class arc_dijkstras::Graph<tu::Val>;
namespace tu {
using G = arc_dijkstras::Graph<Val>;
using E = arc_dijkstras::GraphEdge;
using Dijkstra = arc_dijkstras::SimpleDijkstrasAlgorithm<Val>;
using Astar = arc_dijkstras::SimpleGraphAstar<Val>;
void all(const G& g, const std::function<bool(const G&, const E&)>& ev, const std::function<double(const G&, const E&)>& ed,
         const std::function<bool(const Val&, const Val&)>& nv, const std::function<double(const Val&, const Val&)>& nd,
         const std::function<std::vector<int64_t>(const int64_t)>& ch, const std::function<bool(const int64_t, const int64_t)>& iv,
         const std::function<double(const int64_t, const int64_t)>& id, std::mt19937_64& rng,
         const std::function<std::vector<int>(const int&)>& pn, const std::function<double(const int&, const int&)>& pd,
         const std::function<double(const int&)>& ph, const std::function<bool(const int&)>& pg) {
  Dijkstra::PerformDijkstrasAlgorithm(g, 0);
  Astar::PerformLazyAstar(g, 0, 1, ev, ed, nd, true);
  Astar::PerformLazyAstar(g, 0, 1, nv, nd, nd, true);
  Astar::PerformAstar(g, 0, 1, nd, true);
  arc_helpers::GenericAstarSearch(0, 1, ch, iv, id, id, true);
  arc_dijkstras::GraphRandomWalk<Val>::PerformRandomWalk(g, 0, 1, rng);
  simple_astar_planner::SimpleAStarPlanner<int>::Plan(0, pn, pd, ph, pg);
}
}  // namespace tu
