// instantiates the operators and constructors that make a task
#include "Task.cpp"
#include <tvm/function/abstract/LinearFunction.h>
namespace vp_tu
{
using namespace tvm;
using utils::internal::RHS;
template<typename F>
void ops(std::shared_ptr<F> f, const RHS & a, const RHS & b, const task_dynamics::abstract::TaskDynamics & td)
{
  Task t1(f == a, td), t2(a == f, td), t3(f >= a, td), t4(a >= f, td), t5(f <= a, td), t6(a <= f, td);
  Task t7((a <= f) <= b, td), t8((a >= f) >= b, td);
}
void inst(FunctionPtr f, LinearFunctionPtr g, const RHS & a, const RHS & b, const Eigen::VectorXd & v, const task_dynamics::abstract::TaskDynamics & td)
{
  ops(f, a, b, td);
  ops(g, a, b, td);
  RHS r(v), s(1.);
  (void)r.toVector(2);
}
} // namespace vp_tu
