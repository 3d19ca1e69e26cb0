#pragma once
#include "LSSOL_LS.h"
namespace Eigen
{
class LSSOL_FP : public LSSOL_base_vp
{
public:
  void resize(int n, int nC) { n_ = n; nC_ = nC; x_ = VectorXd::Zero(n); }
  template<typename C, typename L, typename U>
  bool solve(const C & Cm, const L & l, const U & u) { return rows("lssol-fp", Cm, l, u); }
};
} // namespace Eigen
