// Stand-ins for the numerical back ends (QLD, LSSOL, quadprog, LexLS), which are not installed in this sandbox. They have
// the interface the wrappers of /repo use; solving records the problem that was handed over, in one canonical form, and
// returns zero. The wrappers themselves (src/solver/*) are compiled from /repo as they are.
#pragma once
#include <Eigen/Core>
#include <limits>
#include <string>
#include <vector>

namespace vpbackend
{
struct Level
{
  Eigen::MatrixXd A;     // l <= A x <= u, in the least-square sense unless this is the first level
  Eigen::VectorXd l, u;
};
struct Problem
{
  std::string solver;
  int calls = 0;
  Eigen::MatrixXd Q;      // 1/2 x'Qx + c'x
  Eigen::VectorXd c;
  bool hasObjective = false;
  Eigen::MatrixXd A;      // l <= A x <= u
  Eigen::VectorXd l, u;
  bool hasBounds = false;
  Eigen::VectorXd xl, xu;
  std::vector<Level> levels;
  int dims[3] = {-1, -1, -1}; // announced sizes: variables, equalities, inequalities (or constraints)
};
inline Problem & last()
{
  static Problem p;
  return p;
}
inline double inf() { return std::numeric_limits<double>::infinity(); }
} // namespace vpbackend
