// instantiates the geometry and kinematics helpers and the std <-> Eigen conversions for analysis (never run)
#include <cstdint>
#include <string>
#include "arc_utilities/eigen_helpers.hpp"
#include "arc_utilities/eigen_std_conversions.hpp"

namespace tu {
using namespace EigenHelpers;
using V6 = Eigen::Matrix<double, 6, 1>;
void kin(const Eigen::Quaterniond& q, const Eigen::Vector3d& v, const Eigen::VectorXd& x, const Eigen::Matrix3d& m, const Eigen::Matrix4d& m4, const V6& t,
         const Eigen::Isometry3d& iso, const Eigen::Affine3d& aff, double d, const VectorVector3d& vs) {
  RotateVector(q, v); RotateVectorReverse(q, v); SafeNormal(x); ClampNorm(x, d); ClampNorm(v, d); Skew(v); Unskew(m); TwistHat(t); TwistUnhat(m4);
  AdjointFromTransform(iso); AdjointFromTransform(aff); TransformTwist(iso, t); ExpMatrixExact(m, d); ExpTwist(t, d); TransformData(iso, vs);
  Distance(q, q); Distance(m, m); Distance(iso, iso, d);
}
void geo(const Eigen::Vector3d& v, const Eigen::VectorXd& x, const Hyperplane& h, double d) {
  VectorProjection(v, v); VectorRejection(v, v); VectorProjection(x, x); VectorRejection(x, x); VectorProjectionToPlane(v, v, v); DistanceToLine(v, v, v);
  ConvertConeToPyramid(v, d); AngleDefinedByPoints(v, v, v); AngleDefinedByPoints(x, x, x);
  WeightedDotProduct(x, x, x); WeightedSquaredNorm(x, x); WeightedNorm(x, x); WeightedCosineAngleBetweenVectors(x, x, x); WeightedAngleBetweenVectors(x, x, x);
  Hyperplane g(x, x);
  h.GetDimensionality(); h.GetNormedDotProduct(x); h.GetRawDotProduct(x); h.RejectVectorOntoPlane(x); h.GetSquaredDistanceToPlane(x); h.GetDistanceToPlane(x);
  h.ProjectVectorOntoPlane(x); h.ProjectPointOntoPlane(x); h.GetOrigin(); h.GetNormal();
  Equal3d(v, v); CloseEnough(v, v, d);
}
void conv(const std::vector<double>& s, const Eigen::VectorXd& x, const Eigen::Vector3d& v, const Eigen::Quaterniond& q, const Eigen::Isometry3d& t, const VectorVector3d& vs, double d,
          const Eigen::Matrix3d& m) {
  StdVectorDoubleToEigenVector3d(s); StdVectorDoubleToEigenVectorXd(s); EigenVector3dToStdVectorDouble(v); EigenVectorXdToStdVectorDouble(x);
  VectorEigenVectorToEigenVectorX(vs); EigenVectorXToVectorEigenVector<double, 3>(x); StdVectorXToVectorEigenVector<double, 3>(s); EigenVectorXToStdVector(x); StdVectorToEigenVectorX(s);
  StdVectorDoubleToEigenQuaterniond(s); EigenQuaterniondToStdVectorDouble(q);
  ConvertTo<std::vector<double>>(x);
  QuaternionFromRPY(d, d, d); QuaternionFromUrdfRPY(d, d, d); TransformFromRPY(d, d, d, d, d, d); TransformFromRPY(v, v); TransformFromRPY(x); TransformToRPY(t);
  EulerAnglesFromRotationMatrix(m); EulerAnglesFromQuaternion(q); EulerAnglesFromIsometry3d(t);
}
}  // namespace tu
