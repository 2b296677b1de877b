// instantiates the scalar, vector and angle helpers for analysis (never run)
#include <cstdint>
#include <string>
#include "arc_utilities/eigen_helpers.hpp"
#include "arc_utilities/math_helpers.hpp"
#include "arc_utilities/vector_math.hpp"
#include "arc_utilities/arc_helpers.hpp"

namespace tu {
using namespace EigenHelpers;
using V = std::vector<double>;
using P = std::pair<double, double>;
struct Item { double a; };
void all(double a, double b, double r, const V& v, const V& w, const P& p, const P& q, const Eigen::Vector2d& v2, const Eigen::Vector3d& v3, const Eigen::VectorXd& vx,
         const Eigen::Matrix<double, 6, 1>& v6, const Eigen::Quaterniond& qa, const Eigen::Isometry3d& t, const Eigen::Matrix3d& m3, const Eigen::MatrixXd& mx,
         const std::vector<Item>& path, const std::function<double(const Item&, const Item&)>& d, float f) {
  EnforceContinuousRevoluteBounds(a); ContinuousRevoluteSignedDistance(a, b); ContinuousRevoluteDistance(a, b); AddContinuousRevoluteValues(a, b);
  GetContinuousRevoluteRange(a, b); CheckInContinuousRevoluteRange(a, b, r); CheckInContinuousRevoluteBounds(a, b, r); InterpolateContinuousRevolute(a, b, r);
  SafetyCheckUnitInterval(a); SafetyCheckUnitInterval(f); Interpolate(a, b, r); Interpolate(p, q, r); Interpolate(v, w, r); Interpolate(v3, v3, r); Interpolate(v2, v2, r);
  Interpolate(vx, vx, r); Interpolate(qa, qa, r); Interpolate(t, t, r);
  SquaredDistance(v, w); Distance(v, w); CalculateTotalDistance(path, d); AverageStdVectorDouble(v, w); ComputeStdDevStdVectorDouble(v, a); ComputeStdDevStdVectorDouble(v);
  AverageContinuousRevolute(v, w); CloseEnough(a, b, r); CloseEnough(v, w, r); IsApprox(a, b, r); Sign(a); Sign(1);
  Abs(p); Multiply(p, a); Multiply(p, q); Divide(p, a); Divide(p, q); Add(p, q); Sub(p, q);
  Abs(v); Multiply(v, a); Multiply(v, w); Divide(v, a); Divide(v, w); Add(v, a); Add(v, w); Sub(v, a); Sub(v, w); Sum(v);
  arc_helpers::ClampValue(a, b, r); arc_helpers::ClampValueAndWarn(a, b, r); arc_helpers::SpreadValue(a, b, r, r); arc_helpers::SpreadValueAndWarn(a, b, r, r);
  arc_helpers::ClampValue(f, f, f);
  AverageEigenVector3d({v3}, w); AverageEigenVectorXd({vx}, w); AverageEigenVector(std::vector<Eigen::Vector2d>{v2}, w);
}
void sets(const Eigen::MatrixXd& s, const Eigen::VectorXd& p, const Eigen::Matrix3Xd& s3, const Eigen::Vector3d& p3) {
  CalculateSquaredDistanceMatrix(s); CalculateDistanceMatrix(s); CalculateSquaredDistanceToSet(s, p); CalculateDistanceToSet(s, p); ClosestPointInSet(s, p);
  CalculateSquaredDistanceMatrix(s3); CalculateSquaredDistanceToSet(s3, p3); ClosestPointInSet(s3, p3);
  SquaredDistancesBetweenPointSets(s, s);
}
}  // namespace tu
