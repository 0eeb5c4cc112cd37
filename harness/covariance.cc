// C42: rotating pose covariances.
#include "vf.h"
#include <Eigen/Dense>
#include <aslam/common/covariance-helpers.h>

namespace {
using aslam::Transformation;
using aslam::TransformationCovariance;
typedef long double ld;
typedef Eigen::Matrix<ld, 6, 6> L6;
typedef Eigen::Matrix<ld, 3, 3> L3;
typedef vf::Rng Rng;

// The rotation matrix of a unit quaternion, written out.
L3 rotationOf(const Eigen::Quaterniond& q) {
  const ld w = q.w(), x = q.x(), y = q.y(), z = q.z();
  L3 R;
  R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
       2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
       2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return R;
}
void rotated(Rng& r, uint64_t) {
  Eigen::Vector4d c(r.gauss(), r.gauss(), r.gauss(), r.gauss());
  const int how = static_cast<int>(r.below(6));
  if (how == 0) c = Eigen::Vector4d(0, 0, 0, 1);
  if (how == 1) { c.setZero(); c[r.below(4)] = r.chance(0.5) ? 1 : -1; }
  if (how == 2) c.head<3>() *= 1e-7;
  if (c.norm() < 1e-3) c = Eigen::Vector4d(0, 0, 0, 1);
  const Eigen::Quaterniond q(c.normalized());
  const Eigen::Vector3d t(r.gauss() * 10, r.gauss() * 10, r.gauss() * 10);
  const Transformation T(q, t);
  // Covariances of any rank, sizes and couplings; some matrices that are not symmetric.
  Eigen::Matrix<double, 6, 6> L = Eigen::Matrix<double, 6, 6>::Zero();
  const int rank = static_cast<int>(r.below(7));
  for (int j = 0; j < rank; ++j) { const double s = std::pow(10, r.uni(-4, 3)); for (int i = 0; i < 6; ++i) L(i, j) = r.gauss() * s; }
  const int form = static_cast<int>(r.below(4));
  TransformationCovariance A = form == 0 ? TransformationCovariance(L) : form == 1 ? TransformationCovariance((L * L.transpose()).diagonal().asDiagonal()) : TransformationCovariance(L * L.transpose());
  vf::detail(vf::fmt("q=(%.17g %.17g %.17g %.17g) rank %d form %d", q.w(), q.x(), q.y(), q.z(), rank, form));
  TransformationCovariance B = TransformationCovariance::Constant(NAN), back, in_place = A;
  if (!vf::mustReturn("returns", "rotating", [&] {
        aslam::common::rotateCovariance(T, A, &B);
        aslam::common::rotateCovariance(T.inverse(), B, &back);
        aslam::common::rotateCovariance(T, in_place, &in_place);
      })) return;
  L6 J = L6::Zero();
  J.block<3, 3>(0, 0) = J.block<3, 3>(3, 3) = rotationOf(q);
  const L6 W = J * A.cast<ld>() * J.transpose();
  const double size = std::max(A.cwiseAbs().maxCoeff(), 1e-300), tol = 2e-14 * size * 6;
  VF_EXPECT((B.cast<ld>() - W).cwiseAbs().maxCoeff() <= tol, "rotated", "off by %.3g at size %.3g", static_cast<double>((B.cast<ld>() - W).cwiseAbs().maxCoeff()), size);
  VF_EXPECT((back - A).cwiseAbs().maxCoeff() <= 2 * tol, "back", "rotating back is off by %.3g at size %.3g", (back - A).cwiseAbs().maxCoeff(), size);
  VF_EXPECT(in_place == B, "in-place", "rotating in place gives another result");
  if (form != 0) {
    VF_EXPECT((B - B.transpose()).cwiseAbs().maxCoeff() <= tol, "symmetric", "asymmetric by %.3g", (B - B.transpose()).cwiseAbs().maxCoeff());
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, 6, 6>> a(A), b(B);
    VF_EXPECT((a.eigenvalues() - b.eigenvalues()).cwiseAbs().maxCoeff() <= 20 * tol, "eigenvalues", "eigenvalues moved by %.3g", (a.eigenvalues() - b.eigenvalues()).cwiseAbs().maxCoeff());
  }
  // Turning twice is turning by the product; the position plays no role.
  const Eigen::Quaterniond q2(Eigen::Vector4d(r.gauss(), r.gauss(), r.gauss(), 2 + r.uni()).normalized());
  const Transformation T2(q2, Eigen::Vector3d(1, 2, 3)), T0(q, Eigen::Vector3d::Zero());
  TransformationCovariance C, D, E;
  aslam::common::rotateCovariance(T2, B, &C);
  aslam::common::rotateCovariance(T2 * T, A, &D);
  aslam::common::rotateCovariance(T0, A, &E);
  VF_EXPECT((C - D).cwiseAbs().maxCoeff() <= 4 * tol, "chained", "two turns differ from one by %.3g", (C - D).cwiseAbs().maxCoeff());
  VF_EXPECT(E == B, "position", "the position changes the result");
  vf::evaluated(vf::hashBytes(W.data(), sizeof(W)), rank > 0);
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::part("rotated", vf::scale(20000, 2000000), rotated);
  return vf::finish();
}
