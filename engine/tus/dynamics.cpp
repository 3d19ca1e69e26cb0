// instantiates the composed task dynamics
#include <tvm/task_dynamics/Clamped.h>
#include <tvm/task_dynamics/FeedForward.h>
#include <tvm/task_dynamics/OneStepToZero.h>
#include <tvm/task_dynamics/Reference.h>
namespace vp_tu
{
using namespace tvm;
using namespace tvm::task_dynamics;
struct Provider : public graph::abstract::Node<Provider>
{
  SET_OUTPUTS(Provider, FF)
  const Eigen::VectorXd & ff() const { return ff_; }
  Eigen::VectorXd ff_;
};
using CP = Clamped<Proportional>;
using CPD = Clamped<ProportionalDerivative>;
using FP = FeedForward<Proportional>;
using FPD = FeedForward<ProportionalDerivative>;
using CFP = Clamped<FeedForward<Proportional>>;
template<typename D>
std::unique_ptr<abstract::TaskDynamicsImpl> impl(const D & d, FunctionPtr f, constraint::Type t, const Eigen::VectorXd & rhs)
{
  return d.impl(f, t, rhs);
}
struct All
{
  double a, b;
  Eigen::VectorXd v, w;
  std::pair<double, double> mm;
  std::pair<VectorConstRef, VectorConstRef> mmv;
  std::shared_ptr<Provider> p;
  FunctionPtr f;
  void use()
  {
    p->ff();
    CP c1(a, b);
    CP c2(mm, b);
    CP c3(VectorConstRef(v), b);
    CP c4(mmv, b);
    CPD c5(mmv, a, b);
    FP f1(p, &Provider::ff, Provider::Output::FF, b);
    FPD f2(p, &Provider::ff, Provider::Output::FF, a, b);
    CFP cf(mmv, p, &Provider::ff, Provider::Output::FF, b);
    impl(c1, f, constraint::Type::EQUAL, v);
    impl(c5, f, constraint::Type::EQUAL, v);
    impl(f1, f, constraint::Type::EQUAL, v);
    impl(f2, f, constraint::Type::EQUAL, v);
    impl(cf, f, constraint::Type::EQUAL, v);
  }
};
} // namespace vp_tu
