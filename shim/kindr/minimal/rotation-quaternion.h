// Stand-in for the part of minkindr (not installed here) that the repository uses.
#ifndef KINDR_MINIMAL_ROTATION_QUATERNION_H_
#define KINDR_MINIMAL_ROTATION_QUATERNION_H_
#include <cmath>
#include <ostream>
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <glog/logging.h>
#include <kindr/minimal/position.h>
namespace kindr {
namespace minimal {
template <typename Scalar> class RotationQuaternionTemplate;
template <typename Scalar>
class AngleAxisTemplate {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef Eigen::Matrix<Scalar, 3, 1> Vector3;
  typedef Eigen::Matrix<Scalar, 4, 1> Vector4;
  typedef Eigen::Matrix<Scalar, 3, 3> RotationMatrix;
  typedef Eigen::AngleAxis<Scalar> Implementation;
  AngleAxisTemplate() : C_A_B_(Implementation::Identity()) {}
  AngleAxisTemplate(Scalar angle, const Vector3& axis) : C_A_B_(angle, axis) {}
  explicit AngleAxisTemplate(const RotationMatrix& m) : C_A_B_(m) {}
  explicit AngleAxisTemplate(const Vector3& v) : C_A_B_(v.norm() > Scalar(0) ? Implementation(v.norm(), v.normalized()) : Implementation::Identity()) {}
  explicit AngleAxisTemplate(const RotationQuaternionTemplate<Scalar>& q);
  Scalar angle() const { return C_A_B_.angle(); }
  const Vector3& axis() const { return C_A_B_.axis(); }
  RotationMatrix getRotationMatrix() const { return C_A_B_.toRotationMatrix(); }
  const Implementation& toImplementation() const { return C_A_B_; }
 private:
  Implementation C_A_B_;
};
typedef AngleAxisTemplate<double> AngleAxis;

template <typename Scalar>
class RotationQuaternionTemplate {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef Eigen::Matrix<Scalar, 3, 1> Vector3;
  typedef Eigen::Matrix<Scalar, 4, 1> Vector4;
  typedef Vector3 Imaginary;
  typedef Eigen::Quaternion<Scalar> Implementation;
  typedef Eigen::Matrix<Scalar, 3, 3> RotationMatrix;
  RotationQuaternionTemplate() : q_A_B_(Implementation::Identity()) {}
  explicit RotationQuaternionTemplate(const AngleAxisTemplate<Scalar>& a) : q_A_B_(a.toImplementation()) {}
  explicit RotationQuaternionTemplate(const Vector3& v) : q_A_B_(exp(v).q_A_B_) {}
  RotationQuaternionTemplate(Scalar real, const Vector3& imaginary) : q_A_B_(real, imaginary(0), imaginary(1), imaginary(2)) { check(); }
  RotationQuaternionTemplate(Scalar w, Scalar x, Scalar y, Scalar z) : q_A_B_(w, x, y, z) { check(); }
  explicit RotationQuaternionTemplate(const Implementation& q) : q_A_B_(q) { check(); }
  explicit RotationQuaternionTemplate(const RotationMatrix& m) : q_A_B_(m) { check(); }
  Scalar w() const { return q_A_B_.w(); }
  Scalar x() const { return q_A_B_.x(); }
  Scalar y() const { return q_A_B_.y(); }
  Scalar z() const { return q_A_B_.z(); }
  Vector3 imaginary() const { return q_A_B_.vec(); }
  Vector4 vector() const { return Vector4(w(), x(), y(), z()); }
  void setIdentity() { q_A_B_.setIdentity(); }
  RotationQuaternionTemplate& setRandom() { q_A_B_ = Implementation(Vector4::Random().normalized()); return *this; }
  RotationQuaternionTemplate inverse() const { return make(q_A_B_.conjugate()); }
  RotationQuaternionTemplate conjugated() const { return inverse(); }
  Vector3 rotate(const Vector3& v) const { return q_A_B_ * v; }
  Vector3 inverseRotate(const Vector3& v) const { return q_A_B_.conjugate() * v; }
  Eigen::Matrix<Scalar, 3, Eigen::Dynamic> rotateVectorized(const Eigen::Matrix<Scalar, 3, Eigen::Dynamic>& v) const { return getRotationMatrix() * v; }
  const Implementation& toImplementation() const { return q_A_B_; }
  Implementation& toImplementation() { return q_A_B_; }
  RotationQuaternionTemplate operator*(const RotationQuaternionTemplate& o) const { return make(q_A_B_ * o.q_A_B_); }
  RotationMatrix getRotationMatrix() const { return q_A_B_.toRotationMatrix(); }
  bool operator==(const RotationQuaternionTemplate& o) const { return q_A_B_.coeffs() == o.q_A_B_.coeffs() || q_A_B_.coeffs() == -o.q_A_B_.coeffs(); }
  Scalar norm() const { return q_A_B_.norm(); }
  RotationQuaternionTemplate& normalize() { q_A_B_.normalize(); return *this; }
  Scalar getDisparityAngle(const RotationQuaternionTemplate& o) const { return (*this * o.inverse()).log().norm(); }
  Vector3 log() const {
    Implementation q = q_A_B_;
    if (q.w() < Scalar(0)) q.coeffs() = -q.coeffs();
    const Scalar n = q.vec().norm();
    if (n < Scalar(1e-12)) return q.vec() * Scalar(2);
    return q.vec() * (Scalar(2) * std::atan2(n, q.w()) / n);
  }
  static RotationQuaternionTemplate exp(const Vector3& v) {
    const Scalar theta = v.norm();
    if (theta < Scalar(1e-12)) return make(Implementation(Scalar(1), v(0) / 2, v(1) / 2, v(2) / 2).normalized());
    const Vector3 i = v * (std::sin(theta / 2) / theta);
    return make(Implementation(std::cos(theta / 2), i(0), i(1), i(2)));
  }
  static RotationQuaternionTemplate constructAndRenormalize(const RotationMatrix& R) { return make(Implementation(R).normalized()); }
  static RotationQuaternionTemplate fromApproximateRotationMatrix(const RotationMatrix& R) { return constructAndRenormalize(R); }
  static bool isValidRotationMatrix(const RotationMatrix& m) {
    return (m * m.transpose() - RotationMatrix::Identity()).cwiseAbs().maxCoeff() < Scalar(1e-3) && m.determinant() > Scalar(0);
  }
 private:
  static RotationQuaternionTemplate make(const Implementation& q) { RotationQuaternionTemplate r; r.q_A_B_ = q; return r; }
  void check() const { CHECK(std::abs(q_A_B_.squaredNorm() - Scalar(1)) < Scalar(1e-3)) << "not a unit quaternion"; }
  Implementation q_A_B_;
};
typedef RotationQuaternionTemplate<double> RotationQuaternion;
template <typename Scalar>
AngleAxisTemplate<Scalar>::AngleAxisTemplate(const RotationQuaternionTemplate<Scalar>& q) : C_A_B_(q.toImplementation()) {}
template <typename Scalar>
std::ostream& operator<<(std::ostream& out, const RotationQuaternionTemplate<Scalar>& q) { return out << q.vector().transpose(); }
}  // namespace minimal
}  // namespace kindr
#endif
