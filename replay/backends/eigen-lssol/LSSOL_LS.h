#pragma once
#include "../capture.h"
namespace Eigen
{
namespace lssol
{
enum class eType { LP, QP1, QP2, QP3, QP4, LS1, LS2, LS3, LS4 };
}
class LSSOL_base_vp
{
public:
#define VP_OPT(type, name) void name(type v) { name##_ = v; } type name() const { return name##_; } type name##_ = type();
  VP_OPT(double, crashTol) VP_OPT(int, feasibilityMaxIter) VP_OPT(double, feasibilityTol) VP_OPT(double, infiniteBnd)
  VP_OPT(double, infiniteStep) VP_OPT(int, optimalityMaxIter) VP_OPT(bool, persistence) VP_OPT(int, printLevel)
  VP_OPT(double, rankTol) VP_OPT(bool, warm) VP_OPT(bool, forceMinSize)
#undef VP_OPT
  const VectorXd & result() const { return x_; }
  int inform() const { return 0; }
  void print_inform() const {}

protected:
  template<typename C, typename L, typename U>
  bool rows(const char * name, const C & Cm, const L & l, const U & u)
  {
    auto & p = vpbackend::last();
    int calls = p.calls;
    p = vpbackend::Problem();
    p.calls = calls + 1;
    p.solver = name;
    p.dims[0] = n_; p.dims[1] = nC_;
    p.A = Cm;
    p.hasBounds = true;
    p.xl = VectorXd(l).head(n_);
    p.xu = VectorXd(u).head(n_);
    p.l = VectorXd(l).tail(l.size() - n_);
    p.u = VectorXd(u).tail(l.size() - n_);
    return true;
  }
  int n_ = 0, nC_ = 0;
  VectorXd x_;
};
// min ||A x - b||  s.t. l <= [x; C x] <= u; A is overwritten
class LSSOL_LS : public LSSOL_base_vp
{
public:
  void resize(int n, int nC, lssol::eType) { n_ = n; nC_ = nC; x_ = VectorXd::Zero(n); }
  template<typename A, typename B, typename C, typename L, typename U>
  bool solve(A & Am, B & b, const C & Cm, const L & l, const U & u)
  {
    rows("lssol", Cm, l, u);
    auto & p = vpbackend::last();
    p.Q = MatrixXd(Am).transpose() * Am;
    p.c = -MatrixXd(Am).transpose() * b;
    p.hasObjective = true;
    for(Index i = 0; i < Am.rows(); ++i)
      for(Index j = 0; j < Am.cols(); ++j) Am(i, j) = 1000. + i + 7 * j;
    return true;
  }
};
} // namespace Eigen
