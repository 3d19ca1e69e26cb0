// C13: a linearized task constraint against the function it is built for and a separate evaluation of its dynamics.
#include "vp.h"
#include <tvm/Task.h>
#include <tvm/Variable.h>
#include <tvm/constraint/internal/LinearizedTaskConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/graph/CallGraph.h>
#include <tvm/task_dynamics/Constant.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/OneStepToZero.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>
#include <tvm/task_dynamics/VelocityDamper.h>
#include <tvm/utils/ProtoTask.h>
#include <tvm/utils/graph.h>
using namespace tvm;
using namespace Eigen;
using vp::rnd;
using constraint::RHS;
using constraint::Type;
using constraint::internal::LinearizedTaskConstraint;
using Fun = function::abstract::Function;
using LinFun = function::abstract::LinearFunction;
using Cstr = constraint::abstract::Constraint;
using FOP = tvm::internal::FirstOrderProvider;
using MP = tvm::internal::MatrixProperties;
using TD = task_dynamics::abstract::TaskDynamics;
using TDI = task_dynamics::abstract::TaskDynamicsImpl;
using Order = task_dynamics::Order;

static VectorXd rv(int n)
{
  VectorXd v(n);
  for(int i = 0; i < n; ++i) v(i) = vp::rndd();
  return v;
}
static MatrixXd rm(int n, int m)
{
  MatrixXd v(n, m);
  for(int i = 0; i < n; ++i)
    for(int j = 0; j < m; ++j) v(i, j) = vp::rndd();
  return v;
}
static bool same(const MatrixXd & a, const MatrixXd & b)
{
  if(a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for(int i = 0; i < a.rows(); ++i)
    for(int j = 0; j < a.cols(); ++j)
      if(!(std::abs(a(i, j) - b(i, j)) <= 1e-9 * (1 + std::abs(b(i, j))))) return false;
  return true;
}
template<typename F>
static bool refused(F f)
{
  try
  {
    f();
  }
  catch(const std::exception &)
  {
    return true;
  }
  return false;
}

/** a function whose outputs are whatever was last set */
class Mock : public Fun
{
public:
  SET_UPDATES(Mock, V, D, J, N)
  VectorXd v, d, n;
  std::map<const Variable *, MatrixXd> J;
  std::vector<VariablePtr> x;
  int count[4] = {0, 0, 0, 0};
  Mock(int m, const std::vector<VariablePtr> & x, const std::vector<bool> & lin) : Fun(m), x(x)
  {
    registerUpdates(Update::V, &Mock::uv, Update::D, &Mock::ud, Update::J, &Mock::uj, Update::N, &Mock::un);
    addOutputDependency<Mock>(Output::Value, Update::V);
    addOutputDependency<Mock>(Output::Velocity, Update::D);
    addOutputDependency<Mock>(Output::Jacobian, Update::J);
    addOutputDependency<Mock>(Output::NormalAcceleration, Update::N);
    for(size_t i = 0; i < x.size(); ++i) addVariable(x[i], lin[i]);
    fresh();
    all();
  }
  void fresh()
  {
    v = rv(size());
    d = rv(size());
    n = rv(size());
    for(auto & y : x) J[y.get()] = rm(size(), y->space().tSize());
  }
  void all()
  {
    uv();
    ud();
    uj();
    un();
  }
  void uv() { value_ = v; ++count[0]; }
  void ud() { velocity_ = d; ++count[1]; }
  void uj()
  {
    ++count[2];
    for(auto & y : x)
    {
      jacobian_[y.get()] = J[y.get()];
      if(J[y.get()].rows() == J[y.get()].cols() && J[y.get()].isIdentity(0)) jacobian_[y.get()].properties({MP::IDENTITY});
    }
  }
  void un() { normalAcceleration_ = n; ++count[3]; }
};

/** a dynamics that depends on all it is given */
class MockTD : public TD
{
public:
  Order o;
  MockTD(Order o) : o(o) {}
  class Impl : public TDI
  {
  public:
    Impl(FunctionPtr f, Type t, const VectorXd & rhs, Order o) : TDI(o, f, t, rhs)
    {
      addInputDependency<Impl>(Update::UpdateValue, f, FOP::Output::Value);
      if(o == Order::Two) addInputDependency<Impl>(Update::UpdateValue, f, Fun::Output::Velocity);
      this->value_.setZero(f->size());
    }
    void updateValue() override
    {
      value_ = 2 * function().value() + 5 * rhs() + VectorXd::Constant(function().size(), 100. * int(type()));
      if(order() == Order::Two) value_ -= 3 * function().velocity();
    }
  };

protected:
  std::unique_ptr<TDI> impl_(FunctionPtr f, Type t, const VectorXd & rhs) const override
  { return std::make_unique<Impl>(f, t, rhs, o); }
  Order order_() const override { return o; }
};

static std::vector<VariablePtr> variables(int n, std::vector<VariablePtr> & roots, bool euclidean)
{
  std::vector<VariablePtr> x;
  for(int i = 0; i < n; ++i)
  {
    std::string nm = "x" + std::to_string(i);
    int k = rnd(euclidean ? 1 : 0, 4);
    VariablePtr r = k == 0 ? (rnd(0, 1) ? Space(Space::Type::SO3) : Space(Space::Type::SE3)).createVariable(nm) : Space(rnd(1, 4) + (k == 2)).createVariable(nm);
    roots.push_back(r);
    if(k == 1) x.push_back(dot(r));
    else if(k == 2)
    {
      int a = rnd(1, r->size() - 1);
      auto s1 = r->subvariable(Space(a), nm + "a"), s2 = r->subvariable(Space(r->size() - a), nm + "b", Space(a));
      x.push_back(s2);
      if(rnd(0, 1)) x.push_back(s1);
    }
    else x.push_back(r);
  }
  return x;
}
static void freshen(std::vector<VariablePtr> & roots)
{
  for(auto & r : roots)
  {
    VariablePtr v = r;
    for(int k = 0; k < 5; ++k)
    {
      v->set(rv(v->size()));
      v = dot(v);
    }
  }
}

struct Case
{
  Type t;
  VectorXd l, u, e; // sides given
  VectorXd rhs1() const { return t == Type::EQUAL ? e : t == Type::LOWER_THAN ? u : l; }
};

/** task made one of the ways the library offers */
template<typename F>
static Task makeTask(const Case & c, std::shared_ptr<F> f, const TD & td, int how, std::string & ctx)
{
  FunctionPtr g = f;
  ctx += " how " + std::to_string(how);
  bool cst = true, zero = true;
  auto look = [&](const VectorXd & v) {
    if(v.size() && (v.array() != v[0]).any()) cst = false;
    if((v.array() != 0).any()) zero = false;
  };
  look(c.t == Type::DOUBLE_SIDED ? c.l : c.rhs1());
  if(c.t == Type::DOUBLE_SIDED) look(c.u);
  int n = f->size();
  if(how == 0) // direct
  {
    if(c.t == Type::DOUBLE_SIDED) return cst && rnd(0, 1) ? Task(g, c.t, td, c.l[0], c.u[0]) : Task(g, c.t, td, c.l, c.u);
    if(zero && rnd(0, 1)) return Task(g, c.t, td);
    return cst && rnd(0, 1) ? Task(g, c.t, td, c.rhs1()[0]) : Task(g, c.t, td, c.rhs1());
  }
  bool s = how >= 3 && cst;
  utils::internal::RHS l = s ? utils::internal::RHS(c.l.size() ? c.l[0] : 0) : utils::internal::RHS(c.l);
  utils::internal::RHS u = s ? utils::internal::RHS(c.u.size() ? c.u[0] : 0) : utils::internal::RHS(c.u);
  utils::internal::RHS e = s ? utils::internal::RHS(c.e.size() ? c.e[0] : 0) : utils::internal::RHS(c.e);
  (void)n;
  bool rev = how % 2;
  switch(c.t)
  {
    case Type::EQUAL: return rev ? Task(e == f, td) : Task(f == e, td);
    case Type::GREATER_THAN: return rev ? Task(l <= f, td) : Task(f >= l, td);
    case Type::LOWER_THAN: return rev ? Task(u >= f, td) : Task(f <= u, td);
    default: return rev ? Task(u >= f >= l, td) : Task(l <= f <= u, td);
  }
}

static Case sides(int m)
{
  Case c;
  c.t = static_cast<Type>(rnd(0, 3));
  int k = rnd(0, 3);
  auto side = [&] { return k == 0 ? VectorXd(VectorXd::Zero(m)) : k == 1 ? VectorXd(VectorXd::Constant(m, vp::rndd())) : rv(m); };
  if(c.t == Type::EQUAL) c.e = side();
  if(c.t == Type::GREATER_THAN) c.l = side();
  if(c.t == Type::LOWER_THAN) c.u = side();
  if(c.t == Type::DOUBLE_SIDED)
  {
    c.l = side();
    c.u = c.l + side().cwiseAbs();
  }
  return c;
}

static VectorXd evaluate(const TD & td, FunctionPtr f, Type t, const VectorXd & rhs)
{
  auto i = td.impl(f, t, rhs);
  i->updateValue();
  return i->value();
}

/** the constraint, its graph and its function hold together, now */
template<typename F>
static void compare(std::shared_ptr<LinearizedTaskConstraint> c, const Case & k, std::shared_ptr<F> f, const TD & td, const VectorXd & drift,
                    const std::string & ctx)
{
  vp::explored()++;
  FunctionPtr g = f;
  int o = td.order() == Order::Two ? 2 : td.order() == Order::One ? 1 : 0;
  const Cstr & cc = *c;
  VectorXd val = VectorXd::Zero(f->size());
  for(auto & v : f->variables())
  {
    VariablePtr w = v;
    for(int i = 0; i < o; ++i) w = dot(w);
    auto J = c->jacobian(*w);
    EXPECT_VP(same(J, f->jacobian(*v)), "the matrix of a derivative is the Jacobian of the function with respect to the variable",
              ctx << " " << w->name() << ": " << MatrixXd(J) << " expected " << f->jacobian(*v));
    EXPECT_VP(!J.properties().isIdentity() || (J.rows() == J.cols() && J.isIdentity(0)), "the annotations of a matrix hold", ctx);
    val += f->jacobian(*v) * w->value();
  }
  EXPECT_VP(same(c->value(), val), "the value of the constraint is the sum of its matrices times the current values",
            ctx << ": " << c->value().transpose() << " expected " << val.transpose());
  VectorXd d = o == 2 ? VectorXd(drift) : VectorXd(VectorXd::Zero(f->size()));
  if(k.t == Type::DOUBLE_SIDED)
  {
    VectorXd l = evaluate(td, g, Type::GREATER_THAN, k.l) - d, u = evaluate(td, g, Type::LOWER_THAN, k.u) - d;
    EXPECT_VP(same(cc.l(), l), "the lower bound is the dynamics value minus the drift", ctx << ": " << cc.l().transpose() << " expected " << l.transpose());
    EXPECT_VP(same(cc.u(), u), "the upper bound is the dynamics value minus the drift", ctx << ": " << cc.u().transpose() << " expected " << u.transpose());
  }
  else
  {
    VectorXd e = evaluate(td, g, k.t, k.rhs1()) - d;
    const VectorXd & got = k.t == Type::EQUAL ? cc.e() : k.t == Type::LOWER_THAN ? cc.u() : cc.l();
    EXPECT_VP(same(got, e), "the bound is the dynamics value minus the drift", ctx << ": " << got.transpose() << " expected " << e.transpose());
  }
}

template<typename F>
static void structure(const LinearizedTaskConstraint & c, const Case & k, std::shared_ptr<F> f, const TD & td, const std::string & ctx)
{
  int o = td.order() == Order::Two ? 2 : td.order() == Order::One ? 1 : 0;
  EXPECT_VP(c.type() == k.t && c.rhs() == RHS::AS_GIVEN && c.size() == f->size(), "the constraint has the type and size of the task", ctx);
  bool L = k.t == Type::GREATER_THAN || k.t == Type::DOUBLE_SIDED, U = k.t == Type::LOWER_THAN || k.t == Type::DOUBLE_SIDED;
  EXPECT_VP(c.isOutputEnabled(Cstr::Output::L) == L && c.isOutputEnabled(Cstr::Output::U) == U && c.isOutputEnabled(Cstr::Output::E) == (k.t == Type::EQUAL),
            "the bounds exposed are those of the side of the task", ctx);
  bool ok = c.variables().numberOfVariables() == f->variables().numberOfVariables();
  for(int i = 0; ok && i < c.variables().numberOfVariables(); ++i)
  {
    VariablePtr w = f->variables()[i];
    for(int j = 0; j < o; ++j) w = dot(w);
    ok = c.variables()[i] == w && c.linearIn(*w);
  }
  EXPECT_VP(ok, "its variables are those of the function differentiated as many times as the order of the dynamics", ctx);
}

/** the outputs of a bound side, in any order and subset, through graphs made for them */
static std::vector<std::unique_ptr<graph::CallGraph>> graphs(std::shared_ptr<LinearizedTaskConstraint> c, Type t, bool & split)
{
  std::vector<std::unique_ptr<graph::CallGraph>> r;
  auto L = Cstr::Output::L, U = Cstr::Output::U, E = Cstr::Output::E;
  auto J = FOP::Output::Jacobian, V = FOP::Output::Value;
  split = rnd(0, 1);
  if(!split)
  {
    if(t == Type::EQUAL) r.push_back(utils::generateUpdateGraph(c, V, J, E));
    if(t == Type::GREATER_THAN) r.push_back(utils::generateUpdateGraph(c, L, V, J));
    if(t == Type::LOWER_THAN) r.push_back(utils::generateUpdateGraph(c, J, U, V));
    if(t == Type::DOUBLE_SIDED) r.push_back(utils::generateUpdateGraph(c, U, L, J, V));
    return r;
  }
  r.push_back(utils::generateUpdateGraph(c, J));
  r.push_back(utils::generateUpdateGraph(c, V));
  if(t == Type::EQUAL) r.push_back(utils::generateUpdateGraph(c, E));
  if(t == Type::GREATER_THAN || t == Type::DOUBLE_SIDED) r.push_back(utils::generateUpdateGraph(c, L));
  if(t == Type::LOWER_THAN || t == Type::DOUBLE_SIDED) r.push_back(utils::generateUpdateGraph(c, U));
  for(size_t i = r.size(); i > 1; --i) std::swap(r[i - 1], r[size_t(rnd(0, int(i) - 1))]);
  return r;
}

static std::unique_ptr<TD> dynamics(int m, bool ineq, int order, std::string & ctx)
{
  auto name = [&](const char * n) { ctx += std::string(" ") + n; };
  double a = 1 + std::abs(vp::rndd()), b = 1 + std::abs(vp::rndd());
  VectorXd k = VectorXd::Ones(m) + rv(m).cwiseAbs();
  if(order == 1)
    switch(rnd(0, ineq ? 3 : 2))
    {
      case 0: name("Proportional"); return rnd(0, 1) ? std::make_unique<task_dynamics::P>(a) : std::make_unique<task_dynamics::P>(k);
      case 1: name("OneStepToZero 1"); return std::make_unique<task_dynamics::OneStepToZero>(Order::One, a);
      case 2: name("mock 1"); return std::make_unique<MockTD>(Order::One);
      default: name("VelocityDamper 1"); return std::make_unique<task_dynamics::VelocityDamper>(task_dynamics::VelocityDamper::Config(a + 1, a, b));
    }
  if(order == 2)
    switch(rnd(0, ineq ? 3 : 2))
    {
      case 0: name("PD"); return rnd(0, 1) ? std::make_unique<task_dynamics::PD>(a, b) : std::make_unique<task_dynamics::PD>(k, k);
      case 1: name("OneStepToZero 2"); return std::make_unique<task_dynamics::OneStepToZero>(Order::Two, a);
      case 2: name("mock 2"); return std::make_unique<MockTD>(Order::Two);
      default: name("VelocityDamper 2"); return std::make_unique<task_dynamics::VelocityDamper>(0.5, task_dynamics::VelocityDamper::Config(a + 1, a, b));
    }
  if(rnd(0, 1))
  {
    name("mock 0");
    return std::make_unique<MockTD>(Order::Zero);
  }
  name("Constant");
  return std::make_unique<task_dynamics::Constant>();
}

static void general()
{
  while(vp::more())
  {
    std::vector<VariablePtr> roots;
    int order = rnd(0, 5);
    order = order == 0 ? 0 : 1 + order % 2;
    auto x = variables(rnd(1, 3), roots, order == 0);
    int m = rnd(1, 4);
    std::vector<bool> lin(x.size(), order == 0 || rnd(0, 1));
    if(rnd(0, 5) == 0) lin[size_t(rnd(0, int(x.size()) - 1))] = false;
    auto f = std::make_shared<Mock>(m, x, lin);
    Case k = sides(m);
    vp::Msg s;
    s << "type " << int(k.t) << " size " << m << " variables";
    for(auto & v : x) s << " " << v->name() << (lin[size_t(&v - &x[0])] ? "" : " (nonlinear)");
    std::string ctx = s;
    auto td = dynamics(m, k.t != Type::EQUAL, order, ctx);
    vp::context() = ctx;
    Task task = makeTask(k, std::static_pointer_cast<Fun>(f), *td, rnd(0, 4), ctx);
    EXPECT_VP(task.type() == k.t && task.function() == FunctionPtr(f) && task.taskDynamics() && task.taskDynamics()->order() == td->order()
                  && bool(task.secondBoundTaskDynamics()) == (k.t == Type::DOUBLE_SIDED),
              "a task keeps its function, type and dynamics", ctx);
    bool nonlin = std::find(lin.begin(), lin.end(), false) != lin.end();
    if(order == 0 && nonlin)
    {
      EXPECT_VP(refused([&] { LinearizedTaskConstraint c(task); }), "a nonlinear function with a dynamics of order zero is refused", ctx);
      continue;
    }
    auto c = std::make_shared<LinearizedTaskConstraint>(task);
    structure(*c, k, f, *td, ctx);
    bool split;
    auto gs = graphs(c, k.t, split);
    for(int step = 0; step < 4; ++step)
    {
      std::string cs = vp::Msg() << ctx << " step " << step << (split ? " separate graphs" : "");
      vp::context() = cs;
      if(rnd(0, 3)) f->fresh();
      if(rnd(0, 5) == 0)
        for(auto & y : x)
          if(y->space().tSize() == m) f->J[y.get()].setIdentity();
      if(rnd(0, 3)) freshen(roots);
      for(auto & g : gs) g->execute();
      // the outputs the dynamics reads are up to date: the last graph that needed them refreshed them
      f->all();
      compare(c, k, f, *td, f->n, cs);
    }
  }
}

static void linear()
{
  while(vp::more())
  {
    std::vector<VariablePtr> roots;
    auto x = variables(rnd(1, 3), roots, true);
    int m = rnd(1, 4), order = rnd(0, 2);
    bool id = rnd(0, 4) == 0;
    if(id)
    {
      x.resize(1);
      m = x[0]->size();
    }
    std::vector<MatrixXd> A;
    for(auto & v : x) A.push_back(id ? MatrixXd::Identity(m, m) : rm(m, v->size()));
    VectorXd b = id ? VectorXd(VectorXd::Zero(m)) : rv(m);
    std::vector<MatrixConstRef> Ar(A.begin(), A.end());
    std::shared_ptr<LinFun> f;
    std::shared_ptr<function::BasicLinearFunction> bf;
    if(id) f = std::make_shared<function::IdentityFunction>(x[0]);
    else f = bf = std::make_shared<function::BasicLinearFunction>(Ar, x, b);
    Case k = sides(m);
    vp::Msg s;
    s << "linear, type " << int(k.t) << " size " << m << " variables";
    for(auto & v : x) s << " " << v->name();
    std::string ctx = s;
    std::unique_ptr<TD> td;
    bool none = order == 0 && rnd(0, 2);
    if(none)
    {
      td = std::make_unique<task_dynamics::None>();
      ctx += " None";
    }
    else td = dynamics(m, k.t != Type::EQUAL, order, ctx);
    vp::context() = ctx;
    Task task = makeTask(k, f, *td, rnd(0, 4), ctx);
    auto c = std::make_shared<LinearizedTaskConstraint>(task);
    structure(*c, k, f, *td, ctx);
    bool split;
    auto gs = graphs(c, k.t, split);
    for(int step = 0; step < 4; ++step)
    {
      std::string cs = vp::Msg() << ctx << " step " << step;
      vp::context() = cs;
      freshen(roots);
      if(bf && rnd(0, 1))
      {
        size_t i = size_t(rnd(0, int(x.size()) - 1));
        A[i] = rm(m, x[i]->size());
        bf->A(A[i], *x[i]);
        if(rnd(0, 1)) bf->b(b = rv(m));
      }
      for(auto & g : gs) g->execute();
      f->updateValue();
      f->updateVelocity();
      compare(c, k, f, *td, VectorXd::Zero(m), cs);
      if(none)
      {
        // l <= A x + b <= u, whatever the values
        VectorXd r = VectorXd::Zero(m);
        for(size_t i = 0; i < x.size(); ++i) r += A[i] * x[i]->value();
        EXPECT_VP(same(c->value(), r), "without dynamics, the constraint is on the function itself", cs);
        const Cstr & cc = *c;
        const VectorXd & got = k.t == Type::EQUAL ? cc.e() : k.t == Type::LOWER_THAN ? cc.u() : cc.l();
        EXPECT_VP(same(got, k.rhs1() - b), "without dynamics, the bound is the right-hand side minus the constant", cs);
        if(k.t == Type::DOUBLE_SIDED) EXPECT_VP(same(cc.u(), k.u - b), "without dynamics, the upper bound is the right-hand side minus the constant", cs);
      }
    }
  }
}

/** tasks that make no sense */
static void refusals()
{
  while(vp::more())
  {
    vp::explored()++;
    std::vector<VariablePtr> roots;
    auto x = variables(rnd(1, 3), roots, false);
    int m = rnd(1, 4);
    auto f = std::make_shared<Mock>(m, x, std::vector<bool>(x.size(), true));
    std::shared_ptr<Fun> g = f;
    MockTD td(static_cast<Order>(rnd(0, 2)));
    int w = m + (rnd(0, 1) ? 1 : -1);
    VectorXd bad = rv(w), good = rv(m);
    Type t = static_cast<Type>(rnd(0, 2));
    std::string ctx = vp::Msg() << "size " << m << " type " << int(t) << " wrong size " << w;
    vp::context() = ctx;
    EXPECT_VP(refused([&] { Task(g, Type::DOUBLE_SIDED, td); }), "a double-sided task without bounds is refused", ctx);
    EXPECT_VP(refused([&] { Task(g, Type::DOUBLE_SIDED, td, good); }) && refused([&] { Task(g, Type::DOUBLE_SIDED, td, 1.); }),
              "a double-sided task with a single bound is refused", ctx);
    EXPECT_VP(refused([&] { Task(g, t, td, good, good); }) && refused([&] { Task(g, t, td, 0., 1.); }), "a one-sided task with two bounds is refused", ctx);
    EXPECT_VP(refused([&] { g == bad; }) && refused([&] { bad == g; }) && refused([&] { g >= bad; }) && refused([&] { bad >= g; })
                  && refused([&] { g <= bad; }) && refused([&] { bad <= g; }),
              "a right-hand side of another size is refused", ctx);
    EXPECT_VP(refused([&] { good <= g <= bad; }) && refused([&] { bad >= g >= good; }) && refused([&] { 0. <= g <= bad; }) && refused([&] { good >= g >= bad; }),
              "a bound of another size is refused", ctx);
  }
}

SECTION("general", 5)
{
  general();
}
SECTION("linear", 3)
{
  linear();
}
SECTION("refusals", 1)
{
  refusals();
}
