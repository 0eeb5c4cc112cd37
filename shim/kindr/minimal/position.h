// Stand-in for the part of minkindr (not installed here) that the repository uses.
#ifndef KINDR_MINIMAL_POSITION_H_
#define KINDR_MINIMAL_POSITION_H_
#include <Eigen/Core>
namespace kindr {
namespace minimal {
template <typename Scalar> using PositionTemplate = Eigen::Matrix<Scalar, 3, 1>;
typedef PositionTemplate<double> Position;
}  // namespace minimal
}  // namespace kindr
#endif
