#include "vp.h"
#include <algorithm>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/requirements/SolvingRequirements.h>
#include <tvm/scheme/HierarchicalLeastSquares.h>
#include <tvm/scheme/WeightedLeastSquares.h>
#include <tvm/scheme/internal/SchemeAbilities.h>
using namespace tvm;
using namespace tvm::requirements;
using VET = ViolationEvaluationType;

template<typename T> T any();
template<> double any<double>() { return double(vp::rnd(0, 12)) / 4; }
template<> int any<int>() { return vp::rnd(0, 5); }
template<> VET any<VET>() { return VET(vp::rnd(0, 2)); }
template<> Eigen::VectorXd any<Eigen::VectorXd>()
{
  Eigen::VectorXd v(vp::rnd(1, 5));
  for(int i = 0; i < v.size(); ++i) v[i] = any<double>();
  return v;
}
template<typename T> T dflt();
template<> double dflt<double>() { return 1.; }
template<> int dflt<int>() { return 0; }
template<> VET dflt<VET>() { return VET::L2; }
template<> Eigen::VectorXd dflt<Eigen::VectorXd>() { return Eigen::VectorXd(); }

static bool same(double a, double b) { return a == b; }
static bool same(int a, int b) { return a == b; }
static bool same(VET a, VET b) { return a == b; }
static bool same(const Eigen::VectorXd & a, const Eigen::VectorXd & b) { return a.size() == b.size() && a == b; }

template<typename R, typename T>
static void is(const R & r, const T & v, bool d, const char * what)
{
  EXPECT_VP(same(r.value(), v), "the value is the one given", what);
  EXPECT_VP(r.isDefault() == d, "the default flag tells whether a value was given", what);
}

/** one requirement, in both forms */
template<template<bool> class Q, typename T>
static void one(const char * name)
{
  vp::context() = name;
  Q<true> l;
  Q<false> n;
  is(l, dflt<T>(), true, "default, light");
  is(n, dflt<T>(), true, "default, with callbacks");
  T a = any<T>(), b = any<T>(), c = any<T>(), d = any<T>();
  Q<true> l1(a);
  Q<false> n1(b);
  is(l1, a, false, "given, light");
  is(n1, b, false, "given, with callbacks");
  Q<false> n2(l1), n3(l);
  Q<true> l2(n1), l3(n);
  is(n2, a, false, "converted from light");
  is(l2, b, false, "converted to light");
  is(n3, dflt<T>(), true, "default converted from light");
  is(l3, dflt<T>(), true, "default converted to light");
  // changes and notifications
  Q<false> m;
  int runs = 0, runs2 = 0, seen = 0;
  T cur = dflt<T>();
  tvm::internal::PairElementToken tok(m.registerCallback([&] { ++runs; seen += same(m.value(), cur) ? 1 : 0; }));
  tvm::internal::PairElementToken tok2(m.registerCallback([&] { ++runs2; }));
  int want = 0;
  bool def = true;
  for(int k = 0; k < 4; ++k)
  {
    T v = any<T>();
    switch(vp::rnd(0, 4))
    {
      case 0: cur = v; def = false; m.value(v); break;
      case 1: cur = v; def = false; m = v; break;
      case 2: cur = a; def = false; m = l1; break;
      case 3: { Q<true> x(v); cur = v; def = false; m = x; break; }
      default: cur = dflt<T>(); def = true; m = l; break;
    }
    ++want;
    is(m, cur, def, "changed value");
    EXPECT_VP(runs == want && runs2 == want, "every change of a value notifies its subscribers", runs << " notifications for " << want);
    EXPECT_VP(seen == want, "the subscribers see the new value", seen << " of " << want);
  }
  l2.value(c);
  is(l2, c, false, "changed light");
  l2 = d;
  is(l2, d, false, "assigned light");
  l3 = m;
  is(l3, cur, def, "light assigned from callbacks");
  is(n1, b, false, "the source of a conversion is unchanged");
  ++vp::explored();
}

template<typename F>
static bool refused(F f)
{
  try { f(); }
  catch(const std::exception &) { return true; }
  return false;
}

SECTION("single requirements", 1)
{
  while(vp::more())
  {
    one<PriorityLevelBase, int>("PriorityLevel");
    one<WeightBase, double>("Weight");
    one<AnisotropicWeightBase, Eigen::VectorXd>("AnisotropicWeight");
    one<ViolationEvaluationBase, VET>("ViolationEvaluation");
    vp::context() = "validation";
    int p = vp::rnd(-4, 4);
    EXPECT_VP(refused([&] { PriorityLevelBase<true> q(p); }) == (p < 0), "negative priorities and only them are refused", p);
    EXPECT_VP(refused([&] { PriorityLevelBase<false> q(p); }) == (p < 0), "negative priorities and only them are refused", p);
    double w = vp::rnd(0, 1) ? vp::rndd() : (vp::rnd(0, 1) ? -1e-12 : 0.);
    EXPECT_VP(refused([&] { WeightBase<true> q(w); }) == (w < 0), "negative weights and only them are refused", w);
    EXPECT_VP(refused([&] { WeightBase<false> q(w); }) == (w < 0), "negative weights and only them are refused", w);
    Eigen::VectorXd v = any<Eigen::VectorXd>();
    if(vp::rnd(0, 1)) v[vp::rnd(0, int(v.size()) - 1)] = -0.25;
    bool neg = false;
    for(int i = 0; i < v.size(); ++i) neg = neg || v[i] < 0;
    EXPECT_VP(refused([&] { AnisotropicWeightBase<true> q(v); }) == neg, "negative weights and only them are refused", v.transpose());
    EXPECT_VP(refused([&] { AnisotropicWeightBase<false> q(v); }) == neg, "negative weights and only them are refused", v.transpose());
  }
}

struct Want
{
  int p = 0; bool dp = true;
  double w = 1; bool dw = true;
  Eigen::VectorXd a; bool da = true;
  VET e = VET::L2; bool de = true;
};
template<typename R>
static void holds(const R & r, const Want & x, const char * what)
{
  is(r.priorityLevel(), x.p, x.dp, what);
  is(r.weight(), x.w, x.dw, what);
  is(r.anisotropicWeight(), x.a, x.da, what);
  is(r.violationEvaluation(), x.e, x.de, what);
}
SECTION("requirement sets", 0.7)
{
  while(vp::more())
  {
    ++vp::explored();
    vp::context() = "requirement sets";
    PriorityLevel p(any<int>());
    Weight w(any<double>());
    AnisotropicWeight a(any<Eigen::VectorXd>());
    ViolationEvaluation e(any<VET>());
    Want x;
    auto P = [&] { x.p = p.value(); x.dp = false; };
    auto W = [&] { x.w = w.value(); x.dw = false; };
    auto A = [&] { x.a = a.value(); x.da = false; };
    auto V = [&] { x.e = e.value(); x.de = false; };
    SolvingRequirements r;
    switch(vp::rnd(0, 12))
    {
      case 0: break;
      case 1: r = SolvingRequirements(p); P(); break;
      case 2: r = SolvingRequirements(w); W(); break;
      case 3: r = SolvingRequirements(a); A(); break;
      case 4: r = SolvingRequirements(e); V(); break;
      case 5: r = SolvingRequirements(w, p); P(); W(); break;
      case 6: r = SolvingRequirements(a, w); A(); W(); break;
      case 7: r = SolvingRequirements(e, p); V(); P(); break;
      case 8: r = SolvingRequirements(p, a, w); P(); A(); W(); break;
      case 9: r = SolvingRequirements(e, a, p); V(); A(); P(); break;
      case 10: r = SolvingRequirements(p, w, a, e); P(); W(); A(); V(); break;
      case 11: r = SolvingRequirements(e, a, w, p); P(); W(); A(); V(); break;
      default: r = SolvingRequirements(w, e, p, a); P(); W(); A(); V(); break;
    }
    holds(r, x, "light set");
    SolvingRequirementsWithCallbacks n(r);
    holds(n, x, "set with callbacks");
    SolvingRequirementsWithCallbacks n2(a, p), n3(w, e);
    Want y;
    y.a = a.value(); y.da = false; y.p = p.value(); y.dp = false;
    holds(n2, y, "set with callbacks, given directly");
    Want z;
    z.w = w.value(); z.dw = false; z.e = e.value(); z.de = false;
    holds(n3, z, "set with callbacks, given directly");
    int k[4] = {0, 0, 0, 0}, want[4] = {0, 0, 0, 0};
    tvm::internal::PairElementToken t0(n.priorityLevel().registerCallback([&] { ++k[0]; }));
    tvm::internal::PairElementToken t1(n.weight().registerCallback([&] { ++k[1]; }));
    tvm::internal::PairElementToken t2(n.anisotropicWeight().registerCallback([&] { ++k[2]; }));
    tvm::internal::PairElementToken t3(n.violationEvaluation().registerCallback([&] { ++k[3]; }));
    for(int i = 0; i < 4; ++i)
    {
      int c = vp::rnd(0, 3);
      ++want[c];
      if(c == 0) { x.p = any<int>(); x.dp = false; n.priorityLevel() = x.p; }
      if(c == 1) { x.w = any<double>(); x.dw = false; n.weight() = x.w; }
      if(c == 2) { x.a = any<Eigen::VectorXd>(); x.da = false; n.anisotropicWeight() = x.a; }
      if(c == 3) { x.e = any<VET>(); x.de = false; n.violationEvaluation() = x.e; }
      holds(n, x, "modified set");
      for(int j = 0; j < 4; ++j)
        EXPECT_VP(k[j] == want[j], "every change of a value notifies its subscribers", "requirement " << j << ": " << k[j] << " for " << want[j]);
    }
  }
}

using scheme::internal::LevelAbilities;
using scheme::internal::SchemeAbilities;
struct Lvl { bool ineq; std::vector<VET> t; };

static ConstraintPtr cstr(int type)
{
  static VariablePtr x = Space(2).createVariable("x");
  static std::vector<ConstraintPtr> c;
  if(c.empty())
    for(int i = 0; i < 4; ++i)
      c.push_back(std::make_shared<constraint::BasicLinearConstraint>(2, x, constraint::Type(i), constraint::RHS::AS_GIVEN));
  return c[size_t(type)];
}

template<typename Req>
static bool accepts(const SchemeAbilities & s, int type, const Req & r)
{
  std::streambuf * b = std::cout.rdbuf(nullptr);
  bool ok = true;
  bool w = vp::rnd(0, 1);
  try { s.check(cstr(type), r, w); }
  catch(const std::exception &) { ok = false; }
  std::cout.rdbuf(b);
  std::cout.clear();
  return ok;
}

SECTION("scheme abilities", 1)
{
  while(vp::more())
  {
    ++vp::explored();
    int n = vp::rnd(0, 4) == 0 ? scheme::internal::NoLimit : vp::rnd(0, 25) == 0 ? -vp::rnd(2, 4) : vp::rnd(1, 4);
    bool general = vp::rnd(0, 1), scal = vp::rnd(0, 1);
    std::map<int, Lvl> m;
    std::map<int, LevelAbilities> ab;
    vp::Msg d;
    d << n << " levels, scalarization " << scal << ", abilities:";
    for(int k = -1; k <= 5; ++k)
    {
      if(k == -1 ? !general : vp::rnd(0, 3) == 0) continue;
      Lvl l{bool(vp::rnd(0, 1)), {}};
      for(int t = 0; t < 3; ++t)
        if(vp::rnd(0, 1)) l.t.insert(l.t.begin() + vp::rnd(0, int(l.t.size())), VET(t));
      m[k] = l;
      ab.emplace(k, LevelAbilities(l.ineq, l.t));
      d << " " << k << ":" << (l.ineq ? "ineq" : "eq");
      for(auto t : l.t) d << "L" << int(t);
    }
    vp::context() = d;
    bool missing = n < 0 && !general;
    for(int k = 0; k < n; ++k) missing = missing || (!general && !m.count(k));
    bool want = (n < 0 && n != scheme::internal::NoLimit) || missing;
    std::unique_ptr<SchemeAbilities> s;
    bool ref = refused([&] { s.reset(new SchemeAbilities(n, ab, scal)); });
    EXPECT_VP(ref == want, "levels without abilities, and only them, are refused", ref);
    if(!s || want) continue;
    for(int k = 0; k < 8; ++k)
    {
      int p = vp::rnd(0, 6), type = vp::rnd(0, 3);
      VET e = any<VET>();
      const Lvl * l = nullptr;
      if(n < 0 || p < n || scal)
        l = m.count(p) ? &m[p] : m.count(-1) ? &m[-1] : &m[n - 1];
      bool ok = l && (type == 0 || l->ineq) && std::find(l->t.begin(), l->t.end(), e) != l->t.end();
      bool got;
      if(vp::rnd(0, 1))
        got = accepts(*s, type, std::make_shared<SolvingRequirements>(PriorityLevel(p), ViolationEvaluation(e)));
      else
        got = accepts(*s, type, std::make_shared<SolvingRequirementsWithCallbacks>(PriorityLevel(p), ViolationEvaluation(e)));
      EXPECT_VP(got == ok, "a constraint is accepted exactly when its level allows it",
                "priority " << p << ", constraint type " << type << ", violation L" << int(e) << ": accepted " << got << ", expected " << ok);
    }
  }
}

SECTION("the declared abilities of the two schemes", 0.3)
{
  for(int p = 0; p < 5; ++p)
    for(int type = 0; type < 4; ++type)
      for(int e = 0; e < 3; ++e)
      {
        ++vp::explored();
        vp::context() = vp::Msg() << "priority " << p << ", constraint type " << type << ", violation L" << e;
        auto r = std::make_shared<SolvingRequirementsWithCallbacks>(PriorityLevel(p), ViolationEvaluation(VET(e)));
        bool l2 = VET(e) == VET::L2;
        bool w = l2 && (type == 0 || p == 0), h = l2;
        EXPECT_VP(accepts(scheme::WeightedLeastSquares::abilities_, type, r) == w, "weighted least squares accept what they declare", "");
        EXPECT_VP(accepts(scheme::HierarchicalLeastSquares::abilities_, type, r) == h, "hierarchical least squares accept what they declare", "");
      }
}
