// Stand-in for eigen_checks: the comparisons used by aslam_cv2's headers.
#ifndef SHIM_EIGEN_CHECKS_GTEST_H_
#define SHIM_EIGEN_CHECKS_GTEST_H_
#include <Eigen/Core>
#include <gtest/gtest.h>
namespace eigen_checks_shim {
template <typename A, typename B>
::testing::AssertionResult near(const A& a, const B& b, double tolerance) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return ::testing::AssertionFailure() << "sizes differ";
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j)
      if (!(std::abs(a(i, j) - b(i, j)) <= tolerance)) return ::testing::AssertionFailure() << "entry (" << i << ", " << j << "): " << a(i, j) << " and " << b(i, j);
  return ::testing::AssertionSuccess();
}
}  // namespace eigen_checks_shim
#define EIGEN_MATRIX_NEAR(A, B, TOLERANCE) ::eigen_checks_shim::near((A), (B), (TOLERANCE))
#endif  // SHIM_EIGEN_CHECKS_GTEST_H_
