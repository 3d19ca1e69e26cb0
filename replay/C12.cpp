// C12: the value of each task dynamics against its defining formula, computed here from the same numbers.
#include "vp.h"
#include <Eigen/Eigenvalues>
#include <tvm/Variable.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/abstract/Function.h>
#include <tvm/graph/CallGraph.h>
#include <tvm/task_dynamics/Clamped.h>
#include <tvm/task_dynamics/Constant.h>
#include <tvm/task_dynamics/FeedForward.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/OneStepToZero.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>
#include <tvm/task_dynamics/Reference.h>
#include <tvm/task_dynamics/VelocityDamper.h>
#include <tvm/utils/graph.h>
using namespace tvm;
using namespace Eigen;
using vp::rnd;
using constraint::Type;
namespace td = tvm::task_dynamics;
using Impl = td::abstract::TaskDynamicsImpl;

static VectorXd rv(int n)
{
  VectorXd v(n);
  for(int i = 0; i < n; ++i) v(i) = vp::rndd();
  return v;
}
static MatrixXd rm(int n, int m)
{
  MatrixXd v(n, m);
  for(int i = 0; i < n; ++i)
    for(int j = 0; j < m; ++j) v(i, j) = vp::rndd();
  return v;
}
static VectorXd pos(int n, int lo)
{
  VectorXd v(n);
  for(int i = 0; i < n; ++i) v(i) = rnd(lo, 12) / 4.;
  return v;
}

/** a function whose value and velocity are set by hand, taken into account by its updates */
struct F : public function::abstract::Function
{
  SET_UPDATES(F, UV, UD)
  VectorXd v, d;
  F(int n) : Function(n), v(rv(n)), d(rv(n))
  {
    registerUpdates(F::Update::UV, &F::uv, F::Update::UD, &F::ud);
    addOutputDependency<F>(F::Output::Value, F::Update::UV);
    addOutputDependency<F>(F::Output::Velocity, F::Update::UD);
    value_.setConstant(1e6);
    velocity_.setConstant(-1e6);
  }
  void uv() { value_ = v; }
  void ud() { velocity_ = d; }
};
/** a vector provider */
struct P : public graph::abstract::Node<P>
{
  SET_OUTPUTS(P, Sig)
  SET_UPDATES(P, U)
  VectorXd next, cur;
  P(int n) : next(rv(n)), cur(VectorXd::Constant(n, 1e6))
  {
    registerUpdates(P::Update::U, &P::u);
    addOutputDependency<P>(P::Output::Sig, P::Update::U);
  }
  void u() { cur = next; }
  const VectorXd & sig() const { return cur; }
};

/** the numbers of one case */
struct Case
{
  int n;
  Type t;
  VectorXd rhs;
  std::shared_ptr<F> f;
  std::shared_ptr<Impl> impl;
  std::unique_ptr<graph::CallGraph> g;
  std::string ctx;
  Case()
  {
    n = rnd(1, 4);
    t = Type(rnd(0, 3));
    rhs = rv(n);
    f = std::make_shared<F>(n);
    ctx = vp::Msg() << "size " << n << " type " << int(t);
    vp::context() = ctx;
  }
  void make(const td::abstract::TaskDynamics & d, td::Order o, const std::string & what)
  {
    ctx += " " + what;
    vp::context() = ctx;
    EXPECT_VP(d.order() == o, "the order of the dynamics", ctx);
    impl = d.impl(f, t, rhs);
    EXPECT_VP(impl->order() == o, "the order of the implementation", ctx);
    g = utils::generateUpdateGraph(impl, Impl::Output::Value);
  }
  void fresh()
  {
    f->v = rv(n);
    f->d = rv(n);
  }
  void expect(const VectorXd & e, const std::string & key)
  {
    vp::explored()++;
    const VectorXd & v = impl->value();
    bool ok = v.size() == e.size();
    for(int i = 0; ok && i < v.size(); ++i) ok = std::abs(v(i) - e(i)) <= 1e-9 * (1 + std::abs(e(i)));
    EXPECT_VP(ok, key, ctx << ": got " << v.transpose() << " expected " << e.transpose() << " [value " << f->v.transpose() << " velocity " << f->d.transpose()
                           << " rhs " << rhs.transpose() << "]");
  }
  void run() { g->execute(); }
};

template<typename Fn>
static void refused(Fn && fn, const std::string & key, const std::string & what)
{
  vp::explored()++;
  bool thrown = false;
  try { fn(); } catch(std::exception &) { thrown = true; }
  EXPECT_VP(thrown, key, what);
}

/** gains of the three kinds */
struct Gain
{
  int k;
  double s;
  VectorXd v;
  MatrixXd m;
  Gain(int n, bool sym = false)
  {
    k = rnd(0, 2);
    s = rnd(1, 12) / 4.;
    v = pos(n, 1);
    if(sym)
    {
      MatrixXd q = HouseholderQR<MatrixXd>(rm(n, n) + 3 * MatrixXd::Identity(n, n)).householderQ();
      m = q * v.asDiagonal() * q.transpose();
      m = (0.5 * (m + m.transpose())).eval();
    }
    else
      m = rm(n, n);
  }
  MatrixXd mat() const
  {
    int n = int(v.size());
    return k == 0 ? MatrixXd(s * MatrixXd::Identity(n, n)) : k == 1 ? MatrixXd(v.asDiagonal()) : m;
  }
  std::string str() const
  {
    return k == 0 ? std::string(vp::Msg() << "scalar gain " << s) : k == 1 ? std::string(vp::Msg() << "diagonal gain " << v.transpose()) : std::string(vp::Msg() << "matrix gain " << m);
  }
  template<typename Fn>
  auto with(Fn && fn) const
  {
    if(k == 0) return fn(s);
    if(k == 1) return fn(v);
    return fn(m);
  }
};
/** critical damping: the symmetric K with K K = 4 kp */
static MatrixXd critical(const MatrixXd & kp)
{
  SelfAdjointEigenSolver<MatrixXd> s(kp);
  return 2 * s.operatorSqrt();
}

SECTION("zero order, one step, reference", 1)
{
  while(vp::more())
  {
    {
      Case c;
      c.make(td::Constant(), td::Order::Zero, "Constant");
      c.expect(c.rhs, "the constant dynamics is the right-hand side");
      for(int k = 0; k < 2; ++k)
      {
        c.run();
        c.expect(c.rhs, "the constant dynamics is the right-hand side");
        c.fresh();
      }
      refused([&] { td::Constant().impl(c.f, c.t, rv(c.n + 1)); }, "a right-hand side of another size is refused", c.ctx);
    }
    {
      Case c;
      int m = rnd(1, 3);
      VariablePtr x = Space(m).createVariable("x");
      MatrixXd A = rm(c.n, m);
      VectorXd b = rv(c.n);
      auto lf = std::make_shared<function::BasicLinearFunction>(A, x, b);
      td::None none;
      EXPECT_VP(none.order() == td::Order::Zero, "the order of the dynamics", c.ctx << " None");
      std::shared_ptr<Impl> i = none.impl(lf, c.t, c.rhs);
      auto g = utils::generateUpdateGraph(i, Impl::Output::Value);
      for(int k = 0; k < 2; ++k)
      {
        x->set(rv(m));
        g->execute();
        c.impl = i;
        c.expect(c.rhs - b, "no dynamics: the right-hand side minus the constant of the function");
        b = rv(c.n);
        lf->b(b);
      }
      refused([&] { none.impl(c.f, c.t, c.rhs); }, "no dynamics is for linear functions", c.ctx);
    }
    {
      Case c;
      double dt = rnd(1, 16) / 8.;
      bool two = rnd(0, 1);
      c.make(td::OneStepToZero(two ? td::Order::Two : td::Order::One, dt), two ? td::Order::Two : td::Order::One, vp::Msg() << "OneStepToZero dt " << dt);
      for(int k = 0; k < 3; ++k)
      {
        c.run();
        // f + dt f' (+ dt^2/2 f'') = rhs
        c.expect(two ? VectorXd((c.rhs - c.f->v - dt * c.f->d) * 2 / (dt * dt)) : VectorXd((c.rhs - c.f->v) / dt), "one step: the target is reached after dt");
        c.fresh();
      }
      refused([&] { td::OneStepToZero(td::Order::Zero, dt); }, "one step needs an order 1 or 2", c.ctx);
      refused([&] { td::OneStepToZero(td::Order(3), dt); }, "one step needs an order 1 or 2", c.ctx);
      refused([&] { td::OneStepToZero(td::Order::One, 0); }, "one step needs a positive time", c.ctx);
      refused([&] { td::OneStepToZero(td::Order::Two, -dt); }, "one step needs a positive time", c.ctx);
    }
    {
      Case c;
      auto r = std::make_shared<F>(c.n);
      bool two = rnd(0, 1);
      if(two)
        c.make(td::ReferenceAcceleration(r), td::Order::Two, "ReferenceAcceleration");
      else
        c.make(td::ReferenceVelocity(r), td::Order::One, "ReferenceVelocity");
      for(int k = 0; k < 3; ++k)
      {
        c.run();
        c.expect(r->v, "the value of the reference");
        r->v = rv(c.n);
        c.fresh();
      }
      refused([&] { td::ReferenceVelocity(nullptr).impl(c.f, c.t, c.rhs); }, "a reference is needed", c.ctx);
      refused([&] { td::ReferenceVelocity(std::make_shared<F>(c.n + rnd(1, 2))).impl(c.f, c.t, c.rhs); }, "a reference of another size is refused", c.ctx);
    }
    {
      VariablePtr q = Space(Space::Type::SO3).createVariable("q");
      struct G : public F
      {
        G() : F(3) { imageSpace_ = Space(Space::Type::SO3); }
      };
      auto f = std::make_shared<G>();
      refused([&] { td::Constant().impl(f, Type::EQUAL, VectorXd::Zero(f->size())); }, "a function into a non Euclidean space is refused", "SO3");
    }
  }
}

SECTION("proportional", 1)
{
  while(vp::more())
  {
    Case c;
    Gain k(c.n);
    k.with([&](auto & x) {
      c.make(td::P(x), td::Order::One, "P " + k.str());
      return 0;
    });
    auto i = dynamic_cast<td::P::Impl *>(c.impl.get());
    for(int s = 0; s < 4; ++s)
    {
      c.run();
      c.expect(-k.mat() * (c.f->v - c.rhs), "proportional: -kp (f - rhs)");
      c.fresh();
      if(rnd(0, 1))
      {
        k = Gain(c.n);
        c.ctx += ", then " + k.str();
        vp::context() = c.ctx;
        k.with([&](auto & x) {
          i->gain(x);
          return 0;
        });
        EXPECT_VP(int(i->gain().index()) == k.k, "the gain given is returned", c.ctx);
      }
      else if(rnd(0, 2) == 0)
      {
        k = Gain(c.n);
        k.with([&](auto & x) {
          i->gain() = x;
          return 0;
        });
        c.ctx += ", then set directly " + k.str();
      }
      else if(rnd(0, 3) == 0)
      {
        refused([&] { i->gain(rv(c.n + 1)); }, "a gain of another size is refused", c.ctx);
        refused([&] { i->gain(rm(c.n + 1, c.n)); }, "a gain of another size is refused", c.ctx);
        refused([&] { i->gain(rm(c.n, c.n + 1)); }, "a gain of another size is refused", c.ctx);
      }
    }
    MatrixXd w = rm(c.n, c.n + 1);
    refused([&] { td::P(rv(c.n + 1)).impl(c.f, c.t, c.rhs); }, "a gain of another size is refused", c.ctx);
    refused([&] { td::P(rm(c.n, c.n + 1)).impl(c.f, c.t, c.rhs); }, "a gain of another size is refused", c.ctx);
    refused([&] { td::P(rm(c.n + 1, c.n)).impl(c.f, c.t, c.rhs); }, "a gain of another size is refused", c.ctx);
    refused([&] { td::P(1.).impl(c.f, c.t, rv(c.n + 1)); }, "a right-hand side of another size is refused", c.ctx);
  }
}

SECTION("proportional derivative", 2)
{
  while(vp::more())
  {
    Case c;
    bool crit = rnd(0, 2) == 0;
    Gain kp(c.n, crit), kv(c.n);
    MatrixXd KV = crit ? critical(kp.mat()) : kv.mat();
    if(crit)
      kp.with([&](auto & x) {
        c.make(td::PD(x), td::Order::Two, "PD critical " + kp.str());
        return 0;
      });
    else
      kp.with([&](auto & x) {
        return kv.with([&](auto & y) {
          c.make(td::PD(x, y), td::Order::Two, "PD " + kp.str() + " and " + kv.str());
          return 0;
        });
      });
    auto i = dynamic_cast<td::PD::Impl *>(c.impl.get());
    for(int s = 0; s < 4; ++s)
    {
      c.run();
      c.expect(-kp.mat() * (c.f->v - c.rhs) - KV * c.f->d, crit ? "critically damped: -kp (f - rhs) - 2 sqrt(kp) f'" : "proportional derivative: -kp (f - rhs) - kv f'");
      EXPECT_VP(int(i->kp().index()) == kp.k && i->gains().first.index() == i->kp().index() && i->gains().second.index() == i->kv().index(), "the gains given are returned", c.ctx);
      c.fresh();
      int what = rnd(0, 4);
      if(what == 0)
      {
        crit = false;
        kp = Gain(c.n);
        kv = Gain(c.n);
        KV = kv.mat();
        kp.with([&](auto & x) {
          return kv.with([&](auto & y) {
            i->gains(x, y);
            return 0;
          });
        });
        c.ctx += ", then " + kp.str() + " and " + kv.str();
      }
      else if(what == 1)
      {
        crit = true;
        kp = Gain(c.n, true);
        KV = critical(kp.mat());
        c.ctx += ", then critical " + kp.str();
        vp::context() = c.ctx;
        kp.with([&](auto & x) {
          i->gains(x);
          return 0;
        });
      }
      else if(what == 2)
      {
        crit = false;
        Gain n(c.n);
        bool p = rnd(0, 1);
        (p ? kp : kv) = n;
        if(!p) KV = n.mat();
        n.with([&](auto & x) {
          if(p)
            i->kp() = x;
          else
            i->kv() = x;
          return 0;
        });
        c.ctx += std::string(", then set directly ") + (p ? "kp " : "kv ") + n.str();
      }
      else if(what == 3)
      {
        refused([&] { i->gains(rv(c.n + 1), kv.s); }, "a gain of another size is refused", c.ctx);
        refused([&] { i->gains(kp.s, rv(c.n + 1)); }, "a gain of another size is refused", c.ctx);
        refused([&] { i->gains(rm(c.n, c.n + 1), kv.s); }, "a gain of another size is refused", c.ctx);
        refused([&] { i->gains(kp.v, rm(c.n + 1, c.n)); }, "a gain of another size is refused", c.ctx);
        refused([&] { i->gains(VectorXd(pos(c.n + 1, 1))); }, "a gain of another size is refused", c.ctx);
        refused([&] { i->gains(MatrixXd(MatrixXd::Identity(c.n + 1, c.n + 1))); }, "a gain of another size is refused", c.ctx);
      }
      vp::context() = c.ctx;
    }
  }
}

/** what a velocity damper gives, with its memory of the activations */
struct Damper
{
  VectorXd di, ds, xsi, off;
  double dt = 0, big = 1000;
  bool au = false;
  std::vector<char> on;
  VectorXd cur;
  Damper(int n, bool aniso)
  {
    ds = pos(n, 0);
    di = ds + pos(n, 1);
    xsi = pos(n, 1);
    off = pos(n, 0);
    au = rnd(0, 1);
    if(rnd(0, 1)) dt = rnd(1, 8) / 8.;
    if(!aniso)
      for(auto v : {&ds, &di, &xsi, &off}) v->setConstant((*v)(0));
    on.assign(size_t(n), 0);
    cur = xsi;
  }
  std::string str() const
  {
    return vp::Msg() << "VelocityDamper dt " << dt << " di " << di.transpose() << " ds " << ds.transpose() << (au ? " auto, off " : " xsi ") << (au ? off : xsi).transpose();
  }
  td::VelocityDamper make(bool aniso) const
  {
    if(aniso)
    {
      VectorXd x = au ? VectorXd(VectorXd::Zero(di.size())) : xsi;
      td::VelocityDamper::AnisotropicConfig c(di, ds, x, VectorConstRef(off));
      return dt > 0 ? td::VelocityDamper(dt, c, big) : td::VelocityDamper(c, big);
    }
    td::VelocityDamper::Config c(di(0), ds(0), au ? 0 : xsi(0), off(0));
    return dt > 0 ? td::VelocityDamper(dt, c, big) : td::VelocityDamper(c, big);
  }
  VectorXd value(const Case & c)
  {
    double s = c.t == Type::LOWER_THAN ? -1 : 1;
    VectorXd r(c.n);
    for(int i = 0; i < c.n; ++i)
    {
      double e = s * (c.f->v(i) - c.rhs(i)), de = s * c.f->d(i);
      if(e > di(i))
      {
        on[size_t(i)] = 0;
        r(i) = -s * big;
        continue;
      }
      if(au && !on[size_t(i)])
      {
        cur(i) = -(di(i) - ds(i)) / (e - ds(i)) * de + off(i);
        on[size_t(i)] = 1;
      }
      double v = -cur(i) * (e - ds(i)) / (di(i) - ds(i));
      if(dt > 0) v = (v - de) / dt;
      r(i) = s * v;
    }
    return r;
  }
  bool degenerate(const Case & c) const
  {
    double s = c.t == Type::LOWER_THAN ? -1 : 1;
    for(int i = 0; i < c.n; ++i)
      if(s * (c.f->v(i) - c.rhs(i)) == ds(i)) return true;
    return false;
  }
};

SECTION("velocity damper", 2)
{
  while(vp::more())
  {
    Case c;
    bool aniso = rnd(0, 1);
    Damper d(c.n, aniso);
    c.make(d.make(aniso), d.dt > 0 ? td::Order::Two : td::Order::One, d.str());
    for(int k = 0; k < 6; ++k)
    {
      do
      {
        c.f->v = c.rhs + (c.t == Type::LOWER_THAN ? -1 : 1) * (d.ds + rv(c.n));
        c.f->d = rv(c.n);
      } while(d.degenerate(c));
      c.run();
      c.expect(d.value(c), vp::Msg() << "velocity damper" << (d.au ? ", automatic damping" : "") << (d.dt > 0 ? ", second order" : ", first order"));
      if(rnd(0, 3) == 0)
      {
        c.run();
        c.expect(d.value(c), "velocity damper: a repeated update does not change the value");
      }
    }
    int n = c.n;
    using A = td::VelocityDamper::AnisotropicConfig;
    using C = td::VelocityDamper::Config;
    VectorXd z = VectorXd::Zero(n), o = VectorXd::Ones(n);
    auto bump = [&](const VectorXd & v, double d) {
      VectorXd r = v;
      r(rnd(0, n - 1)) = d;
      return r;
    };
    refused([&] { C(1, 1, 1); }, "the interaction distance is above the safety distance", c.ctx);
    refused([&] { C(1, -0.5, 1); }, "the safety distance is not negative", c.ctx);
    refused([&] { C(1, 0, -1); }, "the damping is not negative", c.ctx);
    refused([&] { C(1, 0, 0, -1); }, "the offset is not negative", c.ctx);
    refused([&] { A(bump(2 * o, 1), o, o); }, "the interaction distance is above the safety distance", c.ctx);
    refused([&] { A(o, bump(z, -1), o); }, "the safety distance is not negative", c.ctx);
    refused([&] { A(o, z, bump(o, -1)); }, "the damping is not negative", c.ctx);
    refused([&] { A(o, z, z, VectorConstRef(bump(o, -1))); }, "the offset is not negative", c.ctx);
    if(n > 1) refused([&] { A(o, z, bump(o, 0)); }, "the damping is automatic for all components or none", c.ctx);
    VectorXd p = VectorXd::Zero(n + 1), p1 = VectorXd::Ones(n + 1);
    refused([&] { A(o, p, o); }, "parameters of the same size", c.ctx);
    refused([&] { A(o, z, p1); }, "parameters of the same size", c.ctx);
    refused([&] { A(p1, z, o); }, "parameters of the same size", c.ctx);
    refused([&] { A(o, z, o, VectorConstRef(p1)); }, "parameters of the same size", c.ctx);
    refused([&] { td::VelocityDamper(0., C(1, 0, 1)); }, "a positive time step", c.ctx);
    refused([&] { td::VelocityDamper(-1., A(o, z, o)); }, "a positive time step", c.ctx);
    refused([&] { td::VelocityDamper(C(1, 0, 1), 0); }, "a positive infinity", c.ctx);
    refused([&] { td::VelocityDamper(1, A(o, z, o), -1); }, "a positive infinity", c.ctx);
    VectorXd p2 = VectorXd::Constant(n + 1, 2);
    refused([&] { td::VelocityDamper(A(p2, p1, p1)).impl(c.f, c.t, c.rhs); }, "parameters of the size of the function", c.ctx);
    refused([&] { td::VelocityDamper(0.5, A(p2, p1, p)).impl(c.f, c.t, c.rhs); }, "parameters of the size of the function", c.ctx);
  }
}

static VectorXd clamp(const VectorXd & v, const VectorXd & mi, const VectorXd & ma)
{
  double s = 1;
  for(int i = 0; i < v.size(); ++i)
  {
    if(v(i) > ma(i)) s = std::min(s, ma(i) / v(i));
    if(v(i) < mi(i)) s = std::min(s, mi(i) / v(i));
  }
  return s * v;
}

/** the four ways to give bounds */
template<typename TD, typename... Args>
static void clamped(Case & c, const VectorXd & mi, const VectorXd & ma, int k, td::Order o, const std::string & what, Args &&... args)
{
  if(k == 0)
    c.make(td::Clamped<TD>(ma(0), args...), o, what);
  else if(k == 1)
    c.make(td::Clamped<TD>(std::make_pair(mi(0), ma(0)), args...), o, what);
  else if(k == 2)
    c.make(td::Clamped<TD>(VectorConstRef(ma), args...), o, what);
  else
    c.make(td::Clamped<TD>(std::pair<VectorConstRef, VectorConstRef>(mi, ma), args...), o, what);
}

SECTION("clamped and feed-forward", 2)
{
  while(vp::more())
  {
    Case c;
    int k = rnd(0, 3), which = rnd(0, 6);
    VectorXd mi = -pos(c.n, 0), ma = pos(c.n, 0);
    if(k <= 1)
    {
      mi.setConstant(mi(0));
      ma.setConstant(ma(0));
    }
    if(k == 0 || k == 2) mi = -ma;
    Gain kp(c.n), kv(c.n);
    auto ff = std::make_shared<P>(c.n);
    Damper dm(c.n, false);
    std::string b = vp::Msg() << "in [" << mi.transpose() << ", " << ma.transpose() << "] given as " << k << " ";
    std::function<VectorXd()> e;
    using FFP = td::FeedForward<td::P>;
    using FFPD = td::FeedForward<td::PD>;
    VectorXd *mip = nullptr, *map = nullptr;
    auto bounds = [&](auto * i) {
      if(!i) return;
      mip = &i->min();
      map = &i->max();
    };
    if(which == 0)
    {
      kp.with([&](auto & x) {
        clamped<td::P>(c, mi, ma, k, td::Order::One, "Clamped P " + b + kp.str(), x);
        return 0;
      });
      bounds(dynamic_cast<td::Clamped<td::P>::Impl *>(c.impl.get()));
      e = [&] { return clamp(-kp.mat() * (c.f->v - c.rhs), mi, ma); };
    }
    else if(which == 1)
    {
      kp.with([&](auto & x) {
        return kv.with([&](auto & y) {
          clamped<td::PD>(c, mi, ma, k, td::Order::Two, "Clamped PD " + b + kp.str() + " " + kv.str(), x, y);
          return 0;
        });
      });
      bounds(dynamic_cast<td::Clamped<td::PD>::Impl *>(c.impl.get()));
      e = [&] { return clamp(-kp.mat() * (c.f->v - c.rhs) - kv.mat() * c.f->d, mi, ma); };
    }
    else if(which == 2)
    {
      kp.with([&](auto & x) {
        c.make(FFP(ff, &P::sig, P::Output::Sig, x), td::Order::One, "FeedForward P " + kp.str());
        return 0;
      });
      e = [&] { return VectorXd(-kp.mat() * (c.f->v - c.rhs) + ff->next); };
    }
    else if(which == 3)
    {
      kp.with([&](auto & x) {
        return kv.with([&](auto & y) {
          c.make(FFPD(ff, &P::sig, P::Output::Sig, x, y), td::Order::Two, "FeedForward PD " + kp.str() + " " + kv.str());
          return 0;
        });
      });
      e = [&] { return VectorXd(-kp.mat() * (c.f->v - c.rhs) - kv.mat() * c.f->d + ff->next); };
    }
    else if(which == 4)
    {
      kp.with([&](auto & x) {
        clamped<FFP>(c, mi, ma, k, td::Order::One, "Clamped FeedForward P " + b + kp.str(), ff, &P::sig, P::Output::Sig, x);
        return 0;
      });
      bounds(dynamic_cast<td::Clamped<FFP>::Impl *>(c.impl.get()));
      e = [&] { return clamp(VectorXd(-kp.mat() * (c.f->v - c.rhs) + ff->next), mi, ma); };
    }
    else if(which == 5)
    {
      using FC = td::FeedForward<td::Clamped<td::PD>>;
      c.make(FC(ff, &P::sig, P::Output::Sig, std::make_pair(mi(0), ma(0)), kp.s, kv.v), td::Order::Two, "FeedForward Clamped PD");
      mi.setConstant(mi(0));
      ma.setConstant(ma(0));
      e = [&] { return VectorXd(clamp(-kp.s * (c.f->v - c.rhs) - kv.v.cwiseProduct(c.f->d), mi, ma) + ff->next); };
    }
    else
    {
      td::VelocityDamper::Config cfg(dm.di(0), dm.ds(0), dm.au ? 0 : dm.xsi(0), dm.off(0));
      if(dm.dt > 0)
        clamped<td::VelocityDamper>(c, mi, ma, k, td::Order::Two, "Clamped " + b + dm.str(), dm.dt, cfg, dm.big);
      else
        clamped<td::VelocityDamper>(c, mi, ma, k, td::Order::One, "Clamped " + b + dm.str(), cfg, dm.big);
      e = [&] { return clamp(dm.value(c), mi, ma); };
    }
    for(int s = 0; s < 4; ++s)
    {
      if(which == 6)
        do
        {
          c.f->v = c.rhs + (c.t == Type::LOWER_THAN ? -1 : 1) * (dm.ds + rv(c.n));
          c.f->d = rv(c.n);
        } while(dm.degenerate(c));
      c.run();
      VectorXd w = e();
      c.expect(w, which == 2 || which == 3 || which == 5 ? "feed-forward: the dynamics plus the signal" : "clamping: the largest factor of [0,1] that keeps the bounds");
      c.fresh();
      ff->next = rv(c.n);
      if(mip && rnd(0, 2) == 0)
      {
        mi = -pos(c.n, 0);
        ma = pos(c.n, 0);
        *mip = mi;
        *map = ma;
        c.ctx += vp::Msg() << ", then bounds " << mi.transpose() << ", " << ma.transpose();
        vp::context() = c.ctx;
      }
    }
    using CP = td::Clamped<td::P>;
    VectorXd bad = ma, badm = -ma;
    bad(rnd(0, c.n - 1)) = -1;
    badm(rnd(0, c.n - 1)) = 1;
    VectorXd lng = VectorXd::Ones(c.n + 1), lngm = -lng;
    refused([&] { CP(-1., 1.); }, "a negative maximum is refused", c.ctx);
    refused([&] { CP(std::make_pair(-1., -0.5), 1.); }, "a negative maximum is refused", c.ctx);
    refused([&] { CP(std::make_pair(0.5, 1.), 1.); }, "a positive minimum is refused", c.ctx);
    refused([&] { CP(VectorConstRef(bad), 1.); }, "a negative maximum is refused", c.ctx);
    refused([&] { CP(std::pair<VectorConstRef, VectorConstRef>(badm, ma), 1.); }, "a positive minimum is refused", c.ctx);
    refused([&] { CP(std::pair<VectorConstRef, VectorConstRef>(lngm, ma), 1.); }, "bounds of different sizes are refused", c.ctx);
    refused([&] { CP(std::pair<VectorConstRef, VectorConstRef>(lngm, lng), 1.).impl(c.f, c.t, c.rhs); }, "bounds of another size than the function are refused", c.ctx);
    auto w = std::make_shared<P>(c.n + 1);
    refused([&] { FFP(w, &P::sig, P::Output::Sig, 1.).impl(c.f, c.t, c.rhs); }, "a signal of another size is refused", c.ctx);
  }
}

