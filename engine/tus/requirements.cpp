// instantiates the requirement classes in both forms and the checks of the scheme abilities
#include "scheme/SchemeAbilities.cpp"
#include <tvm/constraint/abstract/Constraint.h>
#include <tvm/requirements/SolvingRequirements.h>
namespace vp_tu
{
using namespace tvm::requirements;
template<template<bool> class Q, typename T>
void one(const T & v)
{
  Q<true> l, l1(v);
  Q<false> n, n1(v);
  Q<false> n2(l1);
  Q<true> l2(n1);
  l = v;
  n = v;
  l = n;
  n = l;
  l.value(v);
  n.value(v);
  (void)l.value();
  (void)n.value();
  (void)l.isDefault();
  (void)n.isDefault();
}
void inst(const Eigen::VectorXd & v, tvm::ConstraintPtr c)
{
  one<PriorityLevelBase, int>(1);
  one<WeightBase, double>(1.);
  one<AnisotropicWeightBase, Eigen::VectorXd>(v);
  one<ViolationEvaluationBase, ViolationEvaluationType>(ViolationEvaluationType::L2);
  PriorityLevel p;
  Weight w;
  AnisotropicWeight a;
  ViolationEvaluation e;
  SolvingRequirements r0, r1(p), r2(w), r3(a), r4(e), r5(w, p), r6(p, a, w), r7(e, a, w, p), r8(p, w, a, e);
  SolvingRequirementsWithCallbacks s0, s1(p, w, a, e), s2(r8);
  (void)s0.priorityLevel();
  (void)s0.weight();
  (void)s0.anisotropicWeight();
  (void)s0.violationEvaluation();
  auto q = std::make_shared<SolvingRequirements>();
  auto qc = std::make_shared<SolvingRequirementsWithCallbacks>();
  tvm::scheme::internal::SchemeAbilities ab(1, {}, false);
  ab.check(c, q);
  ab.check(c, qc);
}
} // namespace vp_tu
