// -fopenmp: the clustering templates with parallel search on (never run)
#define ENABLE_PARALLEL_COMPLETE_LINK_CLUSTERING
#include <cstdint>
#include <string>
#include "arc_utilities/simple_hierarchical_clustering.hpp"
#include "arc_utilities/simple_kmeans_clustering.hpp"

namespace tu {
using P = std::vector<double>;
using H = simple_hierarchical_clustering::SimpleHierarchicalClustering;
using K = simple_kmeans_clustering::SimpleKMeansClustering;
int strategy0() { return simple_hierarchical_clustering::SINGLE_LINK; }
int strategy1() { return simple_hierarchical_clustering::COMPLETE_LINK; }
void all(const std::vector<P>& ps, const Eigen::MatrixXd& m, const std::function<double(const P&, const P&)>& d, const std::function<P(const std::vector<P>&)>& a,
         const std::function<P(const std::vector<P>&, const std::vector<double>&)>& aw, const std::vector<double>& w, double t, uint32_t k, bool pre) {
  H::Cluster<P>(ps, d, t, simple_hierarchical_clustering::SINGLE_LINK);
  H::Cluster<P>(ps, m, t, simple_hierarchical_clustering::COMPLETE_LINK);
  K::Cluster<P>(ps, d, a, ps);
  K::Cluster<P>(ps, d, a, k, pre);
  K::ClusterWeighted<P>(ps, w, d, aw, ps);
  K::ClusterWeighted<P>(ps, w, d, aw, k, pre);
}
}  // namespace tu
