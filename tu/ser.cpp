// instantiates the serialization primitives for analysis (never run)
#include <cstdint>
#include <deque>
#include <string>
#include "arc_utilities/serialization.hpp"
#include "arc_utilities/serialization_eigen.hpp"
#include "arc_utilities/graph.hpp"
#include "arc_utilities/voxel_grid.hpp"

namespace tu {
struct Elem { double a; };
struct Key { int k; bool operator<(const Key& o) const { return k < o.k; } };
using Buf = std::vector<uint8_t>;
template <typename T> void pod(const T& x, Buf& b) {
  arc_utilities::SerializeFixedSizePOD<T>(x, b);
  arc_utilities::DeserializeFixedSizePOD<T>(b, 0);
}
template <typename T> void net(const T& x, Buf& b) {
  arc_utilities::SerializeNetworkFixedSizePOD<T>(x, b);
  arc_utilities::DeserializeNetworkFixedSizePOD<T>(b, 0);
}
template <typename T> void eig(const T& x, Buf& b) {
  arc_utilities::SerializeEigen(x, b);
  arc_utilities::SerializedSizeEigen(x);
  arc_utilities::DeserializeEigen<T>(b, 0);
}
void all(Buf& b, const std::string& s, const std::vector<Elem>& v, const std::map<Key, Elem>& m, const std::pair<Key, Elem>& p,
         const std::function<uint64_t(const Elem&, Buf&)>& es, const std::function<std::pair<Elem, uint64_t>(const Buf&, const uint64_t)>& ed,
         const std::function<uint64_t(const Key&, Buf&)>& ks, const std::function<std::pair<Key, uint64_t>(const Buf&, const uint64_t)>& kd) {
  using namespace arc_utilities;
  pod<uint8_t>(0, b); pod<uint16_t>(0, b); pod<uint32_t>(0, b); pod<uint64_t>(0, b);
  pod<int8_t>(0, b); pod<int16_t>(0, b); pod<int32_t>(0, b); pod<int64_t>(0, b);
  pod<float>(0, b); pod<double>(0, b); pod<char>(0, b); pod<bool>(0, b);
  net<uint8_t>(0, b); net<uint16_t>(0, b); net<uint32_t>(0, b); net<uint64_t>(0, b);
  net<int8_t>(0, b); net<int16_t>(0, b); net<int32_t>(0, b); net<int64_t>(0, b); net<float>(0, b); net<double>(0, b);
  SerializeString<char>(s, b); DeserializeString<char>(b, 0);
  const std::basic_string<uint8_t> us; 
  SerializeNetworkString<uint8_t>(us, b); DeserializeNetworkString<uint8_t>(b, 0);
  SerializeVector<Elem>(v, b, es); DeserializeVector<Elem>(b, 0, ed);
  SerializeNetworkVector<Elem>(v, b, es); DeserializeNetworkVector<Elem>(b, 0, ed);
  SerializeVectorLike<Elem, std::vector<Elem>>(v, b, es); DeserializeVectorLike<Elem, std::vector<Elem>>(b, 0, ed);
  SerializeMap<Key, Elem>(m, b, ks, es); DeserializeMap<Key, Elem>(b, 0, kd, ed);
  SerializeNetworkMap<Key, Elem>(m, b, ks, es); DeserializeNetworkMap<Key, Elem>(b, 0, kd, ed);
  SerializePair<Key, Elem>(p, b, ks, es); DeserializePair<Key, Elem>(b, 0, kd, ed);
  SerializeNetworkPair<Key, Elem>(p, b, ks, es); DeserializeNetworkPair<Key, Elem>(b, 0, kd, ed);
  eig<Eigen::Vector3d>(Eigen::Vector3d(), b);
  eig<Eigen::Matrix<double, 6, 1>>(Eigen::Matrix<double, 6, 1>(), b);
  eig<Eigen::Matrix<double, 7, 1>>(Eigen::Matrix<double, 7, 1>(), b);
  eig<Eigen::VectorXd>(Eigen::VectorXd(), b);
  eig<Eigen::MatrixXd>(Eigen::MatrixXd(), b);
  eig<Eigen::Matrix3Xd>(Eigen::Matrix3Xd(), b);
  eig<Eigen::Matrix3Xf>(Eigen::Matrix3Xf(), b);
  eig<Eigen::MatrixXf>(Eigen::MatrixXf(), b);
  eig<Eigen::Isometry3d>(Eigen::Isometry3d(), b);
  arc_dijkstras::GraphEdge e;
  arc_dijkstras::GraphEdge::Serialize(e, b);
  arc_dijkstras::GraphEdge::Deserialize(b, 0);
  arc_dijkstras::GraphNode<Elem> n;
  arc_dijkstras::GraphNode<Elem>::Serialize(n, b, es);
  arc_dijkstras::GraphNode<Elem>::Deserialize(b, 0, ed);
  arc_dijkstras::Graph<Elem> g;
  arc_dijkstras::Graph<Elem>::Serialize(g, b, es);
  arc_dijkstras::Graph<Elem>::Deserialize(b, 0, ed);
  VoxelGrid::VoxelGrid<Elem> vg;
  vg.SerializeSelf(b, es);
  vg.DeserializeSelf(b, 0, ed);
  VoxelGrid::VoxelGrid<Elem>::Serialize(vg, b, es);
  VoxelGrid::VoxelGrid<Elem>::Deserialize(b, 0, ed);
}
}  // namespace tu
