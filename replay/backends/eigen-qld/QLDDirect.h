#pragma once
#include "../capture.h"
namespace Eigen
{
// min 1/2 x'Qx + c'x  s.t. A x + b = 0 (nEq first rows), A x + b >= 0, xl <= x <= xu
class QLDDirect
{
public:
  void problem(int n, int nEq, int nIneq, int ldq = -1) { n_ = n; nEq_ = nEq; nIneq_ = nIneq; (void)ldq; x_ = VectorXd::Zero(n); }
  template<typename M, typename C, typename A, typename B, typename L, typename U>
  bool solve(const M & Q, const C & c, const A & Am, const B & b, const L & xl, const U & xu, int nEq, bool isDecomp, double)
  {
    auto & p = vpbackend::last();
    int calls = p.calls;
    p = vpbackend::Problem();
    p.calls = calls + 1;
    p.solver = "qld";
    p.dims[0] = n_; p.dims[1] = nEq_; p.dims[2] = nIneq_;
    MatrixXd R = Q;
    if(isDecomp) { R = MatrixXd(R.triangularView<Upper>()); p.Q = R.transpose() * R; }
    else p.Q = R;
    p.c = c;
    p.hasObjective = true;
    p.A = Am;
    p.l = -VectorXd(b);
    p.u = p.l;
    for(Index i = nEq; i < p.u.size(); ++i) p.u(i) = vpbackend::inf();
    p.hasBounds = true;
    p.xl = xl;
    p.xu = xu;
    return true;
  }
  const VectorXd & result() const { return x_; }
  int fail() const { return 0; }

private:
  int n_ = 0, nEq_ = 0, nIneq_ = 0;
  VectorXd x_;
};
} // namespace Eigen
