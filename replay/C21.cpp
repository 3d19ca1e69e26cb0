// C21: affine expressions denote what they spell. The same text is compiled on variables and on vectors; the function
// (or the constraint) made of the former is compared with the value of the latter.
#include "vp.h"
#include <Eigen/Dense>
#include <tvm/LinearizedControlProblem.h>
#include <tvm/Space.h>
#include <tvm/Task.h>
#include <tvm/Variable.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/utils/AffineExpr.h>
#include <tvm/utils/ProtoTask.h>
using namespace Eigen;
using namespace tvm;
using function::BasicLinearFunction;
using tvm::constraint::Type;
using R = tvm::utils::internal::RHS;

static MatrixXd rndM(int r, int c) { return MatrixXd::NullaryExpr(r, c, [] { return vp::rndd(); }); }

/** The operands of the expressions: variables x, y, z with the same size n, u, v with the size m; any of them may be the
 * same or overlap. */
struct Ops
{
  int m, n;
  std::vector<VariablePtr> base;
  VariablePtr x, y, z, u, v;
  MatrixXd A, B, C, M, N;
  VectorXd d, e;
  double a, b;
  std::string desc;
};

struct Vals
{
  VectorXd x, y, z, u, v;
};

#define OPERANDS(o)                                                                                     \
  [[maybe_unused]] const MatrixXd &A = (o).A, &B = (o).B, &C = (o).C, &M = (o).M, &N = (o).N;           \
  [[maybe_unused]] const VectorXd &d = (o).d, &e = (o).e;                                               \
  [[maybe_unused]] double a = (o).a, b = (o).b;
#define VARIABLES(o) \
  [[maybe_unused]] const auto &x = (o).x, &y = (o).y, &z = (o).z, &u = (o).u, &v = (o).v;

struct Expr
{
  const char * text;
  VectorXd (*eval)(const Ops &, const Vals &);
  std::shared_ptr<BasicLinearFunction> (*fun)(const Ops &);
  Task (*task)(const Ops &, int form, const R & r, const R & l);
  TaskWithRequirementsPtr (*add)(const Ops &, LinearizedControlProblem &, int form, const R & r, const R & l);
};

#define EXPR(...)                                                                                                     \
  Expr                                                                                                                \
  {                                                                                                                   \
#__VA_ARGS__, [](const Ops & o, const Vals & w) -> VectorXd { OPERANDS(o) VARIABLES(w) return __VA_ARGS__; },     \
        [](const Ops & o) {                                                                                           \
          OPERANDS(o) VARIABLES(o) return std::make_shared<BasicLinearFunction>(__VA_ARGS__);                         \
        },                                                                                                            \
        [](const Ops & o, int form, const R & r, const R & l) -> Task {                                               \
          OPERANDS(o) VARIABLES(o) task_dynamics::None td;                                                            \
          switch(form)                                                                                                \
          {                                                                                                           \
            case 0: return {(__VA_ARGS__) == r, td};                                                                  \
            case 1: return {r == (__VA_ARGS__), td};                                                                  \
            case 2: return {(__VA_ARGS__) >= r, td};                                                                  \
            case 3: return {r >= (__VA_ARGS__), td};                                                                  \
            case 4: return {(__VA_ARGS__) <= r, td};                                                                  \
            case 5: return {r <= (__VA_ARGS__), td};                                                                  \
            case 6: return {l <= (__VA_ARGS__) <= r, td};                                                             \
            default: return {r >= (__VA_ARGS__) >= l, td};                                                            \
          }                                                                                                           \
        },                                                                                                            \
        [](const Ops & o, LinearizedControlProblem & p, int form, const R & r, const R & l) -> TaskWithRequirementsPtr { \
          OPERANDS(o) VARIABLES(o) requirements::SolvingRequirements q{};                                             \
          switch(form)                                                                                                \
          {                                                                                                           \
            case 0: return p.add((__VA_ARGS__) == r, q);                                                              \
            case 1: return p.add(r == (__VA_ARGS__), q);                                                              \
            case 2: return p.add((__VA_ARGS__) >= r, q);                                                              \
            case 3: return p.add(r >= (__VA_ARGS__), q);                                                              \
            case 4: return p.add((__VA_ARGS__) <= r, q);                                                              \
            case 5: return p.add(r <= (__VA_ARGS__), q);                                                              \
            case 6: return p.add(l <= (__VA_ARGS__) <= r, q);                                                         \
            default: return p.add(r >= (__VA_ARGS__) >= l, q);                                                        \
          }                                                                                                           \
        }                                                                                                             \
  }

static const Expr exprs[] = {
    // linear
    EXPR(A * x), EXPR(-(A * x)), EXPR(a * (A * x)), EXPR(M * (A * x)), EXPR((d.asDiagonal() * A + M * B) * x),
    EXPR(-M * ((A - B) * x)), EXPR(a * (M * (-(A * x)))), EXPR(-u), EXPR(2 * u), EXPR(a * u), EXPR(-(a * u)), EXPR(M * (-u)),
    EXPR(MatrixXd::Identity(o.m, o.n) * x), EXPR(-MatrixXd::Identity(o.m, o.n) * x), EXPR(2. * MatrixXd::Identity(o.m, o.n) * x),
    EXPR(-(-u)), EXPR(b * (a * u)), EXPR((M * d.asDiagonal()) * u),
    // constants
    EXPR(A * x + d), EXPR(d + A * x), EXPR(d + -(A * x)), EXPR(A * x - d), EXPR(u + d), EXPR(d + u), EXPR(u - d), EXPR(d - u),
    EXPR(A * x + (3 * d + M * e)), EXPR(A * x - (a * d - M * e)), EXPR(A * x + d + e), EXPR(A * x + d - e), EXPR(e + (A * x + d)),
    EXPR(e + -(A * x - d)), EXPR((d - e) - u), EXPR(-(u - d) - e), EXPR(-d + M * u), EXPR(A * x - d - e - d),
    // sums of terms
    EXPR(A * x + B * y), EXPR(A * x - B * y), EXPR(u + v), EXPR(u - v), EXPR(u + A * x), EXPR(A * x + u), EXPR(u - A * x),
    EXPR(A * x - u), EXPR(A * x + B * y + C * z), EXPR(A * x + (B * y + C * z)), EXPR(A * x - (B * y - C * z)),
    EXPR((A * x - B * y) - C * z), EXPR((A * x + B * y) - (C * z + u)), EXPR((u + v) + (u - v)), EXPR((u - v) - (v - u)),
    EXPR(u + v - M * u), EXPR(2 * u - v + A * x), EXPR(-(u + v)), EXPR(-u - v), EXPR(A * x + B * x), EXPR(A * x + B * y + A * y - B * x),
    // all
    EXPR(A * x + B * y + d), EXPR(d + (A * x + B * y)), EXPR(d + -(A * x - B * y)), EXPR(A * x + d + B * y + e),
    EXPR((A * x + B * y + d) - (C * z - u + e)), EXPR((A * x + B * y) - (C * z + u + e)), EXPR((A * x - d) - (B * y + C * z)),
    EXPR(u - (A * x + d)), EXPR((A * x + d) - u), EXPR(u + (A * x - d)), EXPR(v - (u - d)),
    // products of sums
    EXPR(a * (A * x + u)), EXPR(M * (A * x - u + d)), EXPR(-(A * x + u - d)), EXPR(M * (N * (A * x + d) - e)),
    EXPR(a * (M * (u - d) + v) - b * (A * x - e)), EXPR(-(M * (u - v)) + a * (d - u)), EXPR((M - N) * (u + d) - (A * x + e)),
    EXPR(M * (a * u - v) - N * (v - d)), EXPR(-a * (-(u - A * x) - d) + e), EXPR(a * M * (-(A * x + B * y)) - d),
};
static const int NE = int(sizeof(exprs) / sizeof(exprs[0]));

static VariablePtr pick(Ops & o, int size, const char * name)
{
  std::vector<VariablePtr> cand;
  for(auto & b : o.base)
    if(b->size() >= size) cand.push_back(b);
  if(cand.empty() || vp::rnd(0, 3) == 0)
  {
    o.base.push_back(Space(size + vp::rnd(0, 3) * vp::rnd(0, 1)).createVariable("b" + std::to_string(o.base.size())));
    cand = {o.base.back()};
  }
  auto w = cand[size_t(vp::rnd(0, int(cand.size()) - 1))];
  size_t i = size_t(std::find(o.base.begin(), o.base.end(), w) - o.base.begin());
  int s = vp::rnd(0, w->size() - size);
  o.desc += std::string(name) + "=b" + std::to_string(i) + "[" + std::to_string(s) + "," + std::to_string(s + size) + ") of " + std::to_string(w->size()) + ", ";
  if(size == w->size()) return w;
  return w->subvariable(Space(size), name, Space(s));
}

static Ops ops()
{
  Ops o;
  o.m = vp::rnd(1, 4);
  o.n = vp::rnd(0, 2) ? vp::rnd(1, 4) : o.m;
  o.desc = "m=" + std::to_string(o.m) + " n=" + std::to_string(o.n) + " ";
  o.x = pick(o, o.n, "x");
  o.y = pick(o, o.n, "y");
  o.z = pick(o, o.n, "z");
  o.u = pick(o, o.m, "u");
  o.v = pick(o, o.m, "v");
  o.A = rndM(o.m, o.n);
  o.B = rndM(o.m, o.n);
  o.C = rndM(o.m, o.n);
  o.M = rndM(o.m, o.m);
  o.N = rndM(o.m, o.m);
  o.d = rndM(o.m, 1);
  o.e = rndM(o.m, 1);
  do o.a = vp::rndd(); while(o.a == 0);
  do o.b = vp::rndd(); while(o.b == 0);
  return o;
}
static Vals values(const Ops & o) { return {o.x->value(), o.y->value(), o.z->value(), o.u->value(), o.v->value()}; }
static int total(const Ops & o)
{
  int n = 0;
  for(auto & w : o.base) n += w->size();
  return n;
}
static void setAll(const Ops & o, const VectorXd & p)
{
  int k = 0;
  for(auto & w : o.base)
  {
    w->set(VectorXd(p.segment(k, w->size())));
    k += w->size();
  }
}
static MatrixXd full(const Ops & o, const VariableVector & vs, int m, const std::function<MatrixXd(const Variable &)> & jac)
{
  MatrixXd J = MatrixXd::Zero(m, total(o));
  for(auto & w : vs.variables())
  {
    int k = 0;
    bool found = false;
    for(auto & q : o.base)
    {
      if(q->contains(*w))
      {
        found = true;
        J.middleCols(k + w->getMappingIn(VariableVector({q})).start, w->size()) += jac(*w);
      }
      k += q->size();
    }
    EXPECT_VP(found, "the variables are those of the expression", "");
  }
  return J;
}
static bool close(const MatrixXd & p, const MatrixXd & q)
{ return p.rows() == q.rows() && p.cols() == q.cols() && (p.size() == 0 || (p - q).cwiseAbs().maxCoeff() < 1e-9); }

/** what the text denotes: columns of the linear part (in the space of the base variables), and the constant */
static void denote(const Ops & o, const Expr & x, MatrixXd & J, VectorXd & c)
{
  int n = total(o);
  setAll(o, VectorXd::Zero(n));
  c = x.eval(o, values(o));
  J.resize(c.size(), n);
  for(int k = 0; k < n; ++k)
  {
    setAll(o, VectorXd::Unit(n, k));
    J.col(k) = x.eval(o, values(o)) - c;
  }
}

static void functions()
{
  Ops o = ops();
  const Expr & x = exprs[vp::rnd(0, NE - 1)];
  vp::context() = std::string(x.text) + " with " + o.desc;
  ++vp::explored();
  auto f = x.fun(o);
  MatrixXd J;
  VectorXd c;
  denote(o, x, J, c);
  MatrixXd Jf = full(o, f->variables(), f->size(), [&](const Variable & w) -> MatrixXd { return f->jacobian(w); });
  EXPECT_VP(close(J, Jf), "the matrices are those of the expression", "got " << Jf << " instead of " << J);
  EXPECT_VP(close(c, f->b()), "the constant is that of the expression", "got " << f->b().transpose() << " instead of " << c.transpose());
  for(int k = 0; k < 2; ++k)
  {
    setAll(o, rndM(total(o), 1));
    VectorXd w = x.eval(o, values(o));
    f->updateValue();
    EXPECT_VP(close(w, f->value()), "the value is that of the expression", "got " << f->value().transpose() << " instead of " << w.transpose());
  }
  for(auto & w : f->variables().variables())
  {
    auto j = f->jacobian(*w);
    auto & p = j.properties();
    MatrixXd D = j, I = MatrixXd::Identity(D.rows(), D.cols());
    bool sq = D.rows() == D.cols();
    if(p.isIdentity()) EXPECT_VP(sq && close(D, I), "the properties of the matrices hold", "identity: " << D);
    if(p.isMinusIdentity()) EXPECT_VP(sq && close(D, -I), "the properties of the matrices hold", "minus identity: " << D);
    if(p.isMultipleOfIdentity()) EXPECT_VP(sq && close(D, D(0, 0) * I), "the properties of the matrices hold", "multiple of the identity: " << D);
    if(p.isZero()) EXPECT_VP(D.isZero(), "the properties of the matrices hold", "zero: " << D);
    if(p.isDiagonal() && !p.isZero()) EXPECT_VP(sq, "the properties of the matrices hold", "diagonal: " << D);
    if(p.isInvertible()) EXPECT_VP(sq && std::abs(D.determinant()) > 1e-9, "the properties of the matrices hold", "invertible: " << D);
  }
  if(f->b().properties().isZero()) EXPECT_VP(f->b().isZero(), "the properties of the matrices hold", "zero constant");
  // derivatives of the function
  for(auto & w : o.base) dot(w)->set(VectorXd(rndM(w->size(), 1)));
  VectorXd dv(total(o));
  int k = 0;
  for(auto & w : o.base)
  {
    dv.segment(k, w->size()) = dot(w)->value();
    k += w->size();
  }
  f->updateVelocity();
  EXPECT_VP(close(J * dv, f->velocity()), "the velocity is that of the expression", "");
}

static R rhs(int m, VectorXd & w, std::string & d)
{
  if(vp::rnd(0, 1))
  {
    double r = vp::rnd(0, 2) ? vp::rndd() : 0;
    w = VectorXd::Constant(m, r);
    d = std::to_string(r);
    return R(r);
  }
  w = rndM(m, 1);
  std::ostringstream ss;
  ss << "(" << w.transpose() << ")";
  d = ss.str();
  return R(w);
}
static const char * forms[] = {"f == r", "r == f", "f >= r", "r >= f", "f <= r", "r <= f", "l <= f <= r", "r >= f >= l"};
/** whether "f form r" holds componentwise, for the value w of f */
static bool holds(int form, double w, double r, double l)
{
  switch(form)
  {
    case 0:
    case 1: return w == r;
    case 2:
    case 5: return w >= r;
    case 3:
    case 4: return w <= r;
    default: return l <= w && w <= r;
  }
}
static bool sat(const constraint::abstract::LinearConstraint & c, int i, double w)
{
  auto s = [&](double q) { return c.rhs() == constraint::RHS::ZERO ? 0. : c.rhs() == constraint::RHS::AS_GIVEN ? q : -q; };
  switch(c.type())
  {
    case Type::EQUAL: return std::abs(w - s(c.rhs() == constraint::RHS::ZERO ? 0 : c.e()(i))) < 1e-9;
    case Type::GREATER_THAN: return w - s(c.rhs() == constraint::RHS::ZERO ? 0 : c.l()(i)) > -1e-9;
    case Type::LOWER_THAN: return w - s(c.rhs() == constraint::RHS::ZERO ? 0 : c.u()(i)) < 1e-9;
    default:
      if(c.rhs() == constraint::RHS::OPPOSITE) return w + c.l()(i) > -1e-9 && w + c.u()(i) < 1e-9;
      return w - c.l()(i) > -1e-9 && w - c.u()(i) < 1e-9;
  }
}
static void slack(const constraint::abstract::LinearConstraint & c, const MatrixXd & J, const VectorXd & c0, int form, const VectorXd & r, const VectorXd & l, const MatrixXd & Jc)
{
  EXPECT_VP(close(J, Jc), "the matrices of the constraint are those of the expression", "got " << Jc << " instead of " << J);
  if(!close(J, Jc)) return;
  for(int i = 0; i < int(c0.size()); ++i)
    for(double w : {r(i), r(i) + 0.5, r(i) - 0.5, r(i) + 40, r(i) - 40, l(i), l(i) - 0.5, l(i) + 0.5, (l(i) + r(i)) / 2})
    {
      // value w of the expression, i.e. w - c0 of its linear part
      bool h = holds(form, w, r(i), l(i)), s = sat(c, i, w - c0(i));
      EXPECT_VP(h == s, "the constraint is satisfied exactly when the relation holds", "row " << i << ": value " << w << ", constraint " << (s ? "" : "not ") << "satisfied");
    }
}

static void relations()
{
  Ops o = ops();
  const Expr & x = exprs[vp::rnd(0, NE - 1)];
  int form = vp::rnd(0, 7);
  VectorXd r, l, t;
  std::string dr, dl;
  R rr = rhs(o.m, r, dr), ll = rhs(o.m, l, dl);
  if(form >= 6)
    while(!(l.array() <= r.array()).all())
    {
      rr = rhs(o.m, r, dr);
      ll = rhs(o.m, l, dl);
    }
  else
    l = r;
  vp::context() = std::string(forms[form]) + " with f: " + x.text + ", r=" + dr + ", l=" + dl + ", " + o.desc;
  ++vp::explored();
  MatrixXd J;
  VectorXd c;
  denote(o, x, J, c);
  {
    LinearizedControlProblem p;
    auto tk = x.add(o, p, form, rr, ll);
    setAll(o, rndM(total(o), 1));
    p.update();
    auto lc = p.constraint(*tk);
    slack(*lc, J, c, form, r, l, full(o, lc->variables(), lc->size(), [&](const Variable & w) -> MatrixXd { return lc->jacobian(w); }));
  }
  {
    Task tk = x.task(o, form, rr, ll);
    auto f = std::dynamic_pointer_cast<function::abstract::LinearFunction>(tk.function());
    EXPECT_VP(f != nullptr, "the function of the task is linear", "");
    if(!f) return;
    setAll(o, rndM(total(o), 1));
    f->updateValue();
    EXPECT_VP(close(f->value(), x.eval(o, values(o))), "the function of the task is the expression", "");
    Type want = form < 2 ? Type::EQUAL : form == 2 || form == 5 ? Type::GREATER_THAN : form < 6 ? Type::LOWER_THAN : Type::DOUBLE_SIDED;
    EXPECT_VP(tk.type() == want, "the type of the task is that of the relation", "");
  }
}

/** the same, from functions and variables */
template<typename F>
static TaskWithRequirementsPtr add(LinearizedControlProblem & p, F f, int form, const R & r, const R & l)
{
  switch(form)
  {
    case 0: return p.add(f == r);
    case 1: return p.add(r == f);
    case 2: return p.add(f >= r);
    case 3: return p.add(r >= f);
    case 4: return p.add(f <= r);
    case 5: return p.add(r <= f);
    case 6: return p.add(l <= f <= r);
    default: return p.add(r >= f >= l);
  }
}
/** non-linear use: any dynamics. A proportional one gives  dot(f) op kp (rhs - f). */
template<typename F>
static TaskWithRequirementsPtr addP(LinearizedControlProblem & p, F f, int form, const R & r, const R & l)
{
  task_dynamics::P td(2.);
  switch(form)
  {
    case 0: return p.add(f == r, td);
    case 1: return p.add(r == f, td);
    case 2: return p.add(f >= r, td);
    case 3: return p.add(r >= f, td);
    case 4: return p.add(f <= r, td);
    case 5: return p.add(r <= f, td);
    case 6: return p.add(l <= f <= r, td);
    default: return p.add(r >= f >= l, td);
  }
}

static void others()
{
  Ops o = ops();
  int form = vp::rnd(0, 7);
  VectorXd r, l;
  std::string dr, dl;
  R rr = rhs(o.m, r, dr), ll = rhs(o.m, l, dl);
  if(form >= 6)
    while(!(l.array() <= r.array()).all())
    {
      rr = rhs(o.m, r, dr);
      ll = rhs(o.m, l, dl);
    }
  else
    l = r;
  int kind = vp::rnd(0, 3);
  const char * kinds[] = {"a variable", "a linear function", "a function", "a variable with a proportional dynamics"};
  vp::context() = std::string(forms[form]) + " with f " + kinds[kind] + ", r=" + dr + ", l=" + dl + ", " + o.desc;
  ++vp::explored();
  setAll(o, rndM(total(o), 1));
  LinearizedControlProblem p;
  std::shared_ptr<BasicLinearFunction> g = std::make_shared<BasicLinearFunction>(o.A * o.x + o.d);
  FunctionPtr gf = g;
  TaskWithRequirementsPtr tk;
  int m = o.m;
  VectorXd c = VectorXd::Zero(m);
  MatrixXd J = MatrixXd::Zero(m, total(o));
  auto put = [&](const VariablePtr & w, const MatrixXd & A) {
    int k = 0;
    for(auto & q : o.base)
    {
      if(q->contains(*w)) J.middleCols(k + w->getMappingIn(VariableVector({q})).start, w->size()) += A;
      k += q->size();
    }
  };
  bool deriv = false;
  if(kind == 0)
  {
    tk = add(p, o.u, form, rr, ll);
    put(o.u, MatrixXd::Identity(m, m));
  }
  else if(kind == 1)
  {
    tk = add(p, g, form, rr, ll);
    put(o.x, o.A);
    c = o.d;
  }
  else
  {
    if(kind == 2)
    {
      tk = addP(p, gf, form, rr, ll);
      put(o.x, o.A);
      c = o.A * o.x->value() + o.d;
    }
    else
    {
      tk = addP(p, o.u, form, rr, ll);
      put(o.u, MatrixXd::Identity(m, m));
      c = o.u->value();
    }
    deriv = true;
    r = 2 * (r - c);
    l = 2 * (l - c);
    c.setZero();
  }
  p.update();
  auto lc = p.constraint(*tk);
  // the variables are those of the task, or their derivatives
  Ops od = o;
  if(deriv)
    for(auto & w : od.base) w = dot(w);
  slack(*lc, J, c, form, r, l, full(od, lc->variables(), lc->size(), [&](const Variable & w) -> MatrixXd { return lc->jacobian(w); }));
}

/** right-hand sides of the wrong size, terms of different sizes */
static void refused()
{
  Ops o = ops();
  const Expr & x = exprs[vp::rnd(0, NE - 1)];
  int form = vp::rnd(0, 7), s = vp::rnd(1, 5);
  if(s == o.m) return;
  R bad(VectorXd(rndM(s, 1))), good(0.);
  bool second = vp::rnd(0, 1);
  vp::context() = std::string(forms[form]) + " with f: " + x.text + ", right-hand side of size " + std::to_string(s) + ", " + o.desc;
  ++vp::explored();
  bool thrown = false;
  try
  {
    x.task(o, form, form >= 6 && second ? good : bad, form >= 6 && !second ? good : bad);
  }
  catch(const std::runtime_error &)
  {
    thrown = true;
  }
  EXPECT_VP(thrown, "a right-hand side of the wrong size is refused", "");
}

SECTION("functions", 3)
{
  while(vp::more()) functions();
}
SECTION("relations", 3)
{
  while(vp::more()) relations();
}
SECTION("relations on functions and variables", 1)
{
  while(vp::more()) others();
}
SECTION("refusals", 1)
{
  while(vp::more()) refused();
}
