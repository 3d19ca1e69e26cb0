#pragma once
#include "../capture.h"
namespace Eigen
{
// min 1/2 x'Qx + c'x  s.t. Aeq x = beq, Aineq x <= bineq; with isDecomp, Q holds R^{-1} where Q = R'R
class QuadProgDense
{
public:
  void problem(int n, int nEq, int nIneq) { n_ = n; nEq_ = nEq; nIneq_ = nIneq; x_ = VectorXd::Zero(n); }
  template<typename M, typename C, typename AE, typename BE, typename AI, typename BI>
  bool solve(const M & Q, const C & c, const AE & Aeq, const BE & beq, const AI & Aineq, const BI & bineq, bool isDecomp)
  {
    auto & p = vpbackend::last();
    int calls = p.calls;
    p = vpbackend::Problem();
    p.calls = calls + 1;
    p.solver = "quadprog";
    p.dims[0] = n_; p.dims[1] = nEq_; p.dims[2] = nIneq_;
    MatrixXd R = Q;
    if(isDecomp)
    {
      MatrixXd inv = MatrixXd(R.triangularView<Upper>());
      MatrixXd Rr = MatrixXd::Identity(R.rows(), R.cols());
      inv.triangularView<Upper>().solveInPlace(Rr);
      p.Q = Rr.transpose() * Rr;
    }
    else p.Q = R;
    p.c = c;
    p.hasObjective = true;
    p.A.resize(Aeq.rows() + Aineq.rows(), n_);
    p.A << Aeq, Aineq;
    p.u.resize(p.A.rows());
    p.u << beq, bineq;
    p.l = p.u;
    for(Index i = Aeq.rows(); i < p.l.size(); ++i) p.l(i) = -vpbackend::inf();
    return true;
  }
  const VectorXd & result() const { return x_; }
  int fail() const { return 0; }

private:
  int n_ = 0, nEq_ = 0, nIneq_ = 0;
  VectorXd x_;
};
} // namespace Eigen
