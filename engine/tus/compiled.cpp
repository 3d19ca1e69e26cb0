// instantiates the compiled assignments the library can build: every operation, weight, multiplication and source
#include <tvm/scheme/internal/CompiledAssignmentWrapper.h>
namespace vp_tu
{
using namespace tvm::scheme::internal;
using Eigen::MatrixXd;
using Eigen::VectorXd;
template<typename T, AssignType A, WeightMult W, MatrixMult M, Source F>
struct Use
{
  using Wrap = CompiledAssignmentWrapper<T>;
  using S = typename CompiledAssignment<T, A, W, M, F>::SourceType;
  static Wrap make(const Eigen::Ref<T> & to, const S & f, const double & s, const Eigen::Ref<const VectorXd> & d, const Eigen::Ref<const MatrixXd> & m)
  {
    if constexpr(F == ZERO) return Wrap::template make<A, W, M, F>(to);
    else if constexpr(W == SCALAR && M == IDENTITY) return Wrap::template make<A, W, M, F>(to, f, s);
    else if constexpr(W == SCALAR) return Wrap::template make<A, W, M, F>(to, f, s, m);
    else if constexpr(W == DIAGONAL && M == IDENTITY) return Wrap::template make<A, W, M, F>(to, f, d);
    else if constexpr(W == DIAGONAL) return Wrap::template make<A, W, M, F>(to, f, d, m);
    else if constexpr(M == IDENTITY) return Wrap::template make<A, W, M, F>(to, f);
    else return Wrap::template make<A, W, M, F>(to, f, m);
  }
};
template<typename T, AssignType A, WeightMult W, MatrixMult M>
struct UseF
{
  void f(Use<T, A, W, M, EXTERNAL> u, Eigen::Ref<T> t, const Eigen::Ref<const T> & f, const double & s, const Eigen::Ref<const VectorXd> & d, const Eigen::Ref<const MatrixXd> & m)
  {
    auto w = u.make(t, f, s, d, m);
    w.run();
    w.to(t);
    w.from(f);
    w.from(1.);
    if constexpr(std::is_same<T, VectorXd>::value)
    {
      auto v = Use<T, A, W, M, CONSTANT>::make(t, 1., s, d, m);
      v.from(1.);
    }
  }
};
template<typename T, AssignType A, WeightMult W>
struct UseM
{
  UseF<T, A, W, IDENTITY> a;
  UseF<T, A, W, GENERAL> b;
  UseF<T, A, W, INVERSE_DIAGONAL> c;
  void f(Eigen::Ref<T> t, const Eigen::Ref<const T> & f, const double & s, const Eigen::Ref<const VectorXd> & d, const Eigen::Ref<const MatrixXd> & m)
  {
    a.f({}, t, f, s, d, m);
    b.f({}, t, f, s, d, m);
    c.f({}, t, f, s, d, m);
  }
};
template<typename T, AssignType A>
void useW(Eigen::Ref<T> t, const Eigen::Ref<const T> & f, const double & s, const Eigen::Ref<const VectorXd> & d, const Eigen::Ref<const MatrixXd> & m)
{
  UseM<T, A, NONE>().f(t, f, s, d, m);
  UseM<T, A, MINUS>().f(t, f, s, d, m);
  UseM<T, A, SCALAR>().f(t, f, s, d, m);
  UseM<T, A, DIAGONAL>().f(t, f, s, d, m);
  auto z = Use<T, A, NONE, IDENTITY, ZERO>::make(t, f, s, d, m);
  z.from(f);
  CompiledAssignmentWrapper<T> c(z), e;
  c = z;
}
template<typename T>
void useA(Eigen::Ref<T> t, const Eigen::Ref<const T> & f, const double & s, const Eigen::Ref<const VectorXd> & d, const Eigen::Ref<const MatrixXd> & m)
{
  useW<T, COPY>(t, f, s, d, m);
  useW<T, ADD>(t, f, s, d, m);
  useW<T, SUB>(t, f, s, d, m);
  useW<T, MIN>(t, f, s, d, m);
  useW<T, MAX>(t, f, s, d, m);
}
void inst(Eigen::Ref<MatrixXd> t, const Eigen::Ref<const MatrixXd> & f, Eigen::Ref<VectorXd> tv, const Eigen::Ref<const VectorXd> & fv,
          const double & s, const Eigen::Ref<const VectorXd> & d, const Eigen::Ref<const MatrixXd> & m)
{
  useA<MatrixXd>(t, f, s, d, m);
  useA<VectorXd>(tv, fv, s, d, m);
}
} // namespace vp_tu
