// Stand-in for the part of minkindr (not installed here) that the repository uses.
#ifndef KINDR_MINIMAL_QUAT_TRANSFORMATION_H_
#define KINDR_MINIMAL_QUAT_TRANSFORMATION_H_
#include <kindr/minimal/position.h>
#include <kindr/minimal/rotation-quaternion.h>
namespace kindr {
namespace minimal {
template <typename Scalar>
class QuatTransformationTemplate {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef Eigen::Matrix<Scalar, 3, 1> Vector3;
  typedef Eigen::Matrix<Scalar, 4, 1> Vector4;
  typedef Eigen::Matrix<Scalar, 6, 1> Vector6;
  typedef Eigen::Matrix<Scalar, 3, Eigen::Dynamic> Matrix3X;
  typedef PositionTemplate<Scalar> Position;
  typedef RotationQuaternionTemplate<Scalar> Rotation;
  typedef Eigen::Matrix<Scalar, 3, 3> RotationMatrix;
  typedef Eigen::Matrix<Scalar, 4, 4> TransformationMatrix;
  QuatTransformationTemplate() : A_t_A_B_(Position::Zero()) {}
  QuatTransformationTemplate(const Rotation& q, const Position& t) : q_A_B_(q), A_t_A_B_(t) {}
  QuatTransformationTemplate(const typename Rotation::Implementation& q, const Position& t) : q_A_B_(q), A_t_A_B_(t) {}
  QuatTransformationTemplate(const Position& t, const Rotation& q) : q_A_B_(q), A_t_A_B_(t) {}
  QuatTransformationTemplate(const Position& t, const typename Rotation::Implementation& q) : q_A_B_(q), A_t_A_B_(t) {}
  explicit QuatTransformationTemplate(const TransformationMatrix& T)
      : q_A_B_(Rotation::constructAndRenormalize(T.template topLeftCorner<3, 3>())), A_t_A_B_(T.template topRightCorner<3, 1>()) {
    CHECK(Rotation::isValidRotationMatrix(T.template topLeftCorner<3, 3>())) << "not a rotation";
  }
  explicit QuatTransformationTemplate(const Vector6& x) : q_A_B_(Rotation::exp(x.template tail<3>())), A_t_A_B_(x.template head<3>()) {}
  void setIdentity() { q_A_B_.setIdentity(); A_t_A_B_.setZero(); }
  QuatTransformationTemplate& setRandom() { q_A_B_.setRandom(); A_t_A_B_.setRandom(); return *this; }
  QuatTransformationTemplate& setRandom(Scalar norm) { setRandom(); A_t_A_B_ = A_t_A_B_.normalized() * norm; return *this; }
  Position& getPosition() { return A_t_A_B_; }
  const Position& getPosition() const { return A_t_A_B_; }
  Rotation& getRotation() { return q_A_B_; }
  const Rotation& getRotation() const { return q_A_B_; }
  const typename Rotation::Implementation& getEigenQuaternion() const { return q_A_B_.toImplementation(); }
  RotationMatrix getRotationMatrix() const { return q_A_B_.getRotationMatrix(); }
  TransformationMatrix getTransformationMatrix() const {
    TransformationMatrix T = TransformationMatrix::Identity();
    T.template topLeftCorner<3, 3>() = getRotationMatrix();
    T.template topRightCorner<3, 1>() = A_t_A_B_;
    return T;
  }
  QuatTransformationTemplate operator*(const QuatTransformationTemplate& o) const { return QuatTransformationTemplate(q_A_B_ * o.q_A_B_, A_t_A_B_ + q_A_B_.rotate(o.A_t_A_B_)); }
  Vector3 operator*(const Vector3& v) const { return transform(v); }
  Vector3 transform(const Vector3& v) const { return q_A_B_.rotate(v) + A_t_A_B_; }
  Matrix3X transformVectorized(const Matrix3X& v) const { return (getRotationMatrix() * v).colwise() + A_t_A_B_; }
  Vector3 inverseTransform(const Vector3& v) const { return q_A_B_.inverseRotate(v - A_t_A_B_); }
  QuatTransformationTemplate inverse() const { return QuatTransformationTemplate(q_A_B_.inverse(), Position(-q_A_B_.inverseRotate(A_t_A_B_))); }
  bool operator==(const QuatTransformationTemplate& o) const { return q_A_B_ == o.q_A_B_ && A_t_A_B_ == o.A_t_A_B_; }
  bool operator!=(const QuatTransformationTemplate& o) const { return !(*this == o); }
 private:
  Rotation q_A_B_;
  Position A_t_A_B_;
};
typedef QuatTransformationTemplate<double> QuatTransformation;
template <typename Scalar>
std::ostream& operator<<(std::ostream& out, const QuatTransformationTemplate<Scalar>& T) { return out << T.getTransformationMatrix(); }
}  // namespace minimal
}  // namespace kindr
#endif
