// C14: linear functions and constraints against the sum of their matrices times the current values of their variables.
#include "vp.h"
#include <Eigen/LU>
#include <tvm/Variable.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/graph/CallGraph.h>
#include <tvm/utils/graph.h>
using namespace tvm;
using namespace Eigen;
using vp::rnd;
using constraint::RHS;
using constraint::Type;
using function::BasicLinearFunction;
using Fun = function::abstract::LinearFunction;
using Cstr = constraint::abstract::LinearConstraint;
using FOP = tvm::internal::FirstOrderProvider;
using MP = tvm::internal::MatrixProperties;

static VectorXd rv(int n)
{
  VectorXd v(n);
  for(int i = 0; i < n; ++i) v(i) = vp::rndd();
  return v;
}
static MatrixXd rm(int n, int m)
{
  MatrixXd v(n, m);
  for(int i = 0; i < n; ++i)
    for(int j = 0; j < m; ++j) v(i, j) = vp::rndd();
  return v;
}
static bool same(const MatrixXd & a, const MatrixXd & b)
{
  if(a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for(int i = 0; i < a.rows(); ++i)
    for(int j = 0; j < a.cols(); ++j)
      if(!(std::abs(a(i, j) - b(i, j)) <= 1e-9 * (1 + std::abs(b(i, j))))) return false;
  return true;
}
/** what the annotations claim holds of the content */
static bool sound(const MP & p, const MatrixXd & m)
{
  if(p.isIdentity() && !(m.rows() == m.cols() && m.isIdentity(0))) return false;
  if(p.isMinusIdentity() && !(m.rows() == m.cols() && (-m).isIdentity(0))) return false;
  if(p.isZero() && m.size() && m.cwiseAbs().maxCoeff() != 0) return false;
  if(p.isDiagonal())
    for(int i = 0; i < m.rows(); ++i)
      for(int j = 0; j < m.cols(); ++j)
        if(i != j && m(i, j) != 0) return false;
  if(p.isInvertible() && (m.rows() != m.cols() || std::abs(m.determinant()) < 1e-9)) return false;
  return true;
}

/** variables that do not overlap: plain ones, derivatives of plain and non-Euclidean ones, parts of a common one */
struct Vars
{
  std::vector<VariablePtr> roots, x;
  VariablePtr stranger;
  Vars(int n)
  {
    for(int i = 0; i < n; ++i)
    {
      int k = rnd(0, 5);
      std::string nm = "x" + std::to_string(i);
      if(k == 0)
      {
        VariablePtr s = Space(Space::Type::SO3).createVariable(nm);
        roots.push_back(s);
        x.push_back(dot(s));
      }
      else if(k == 1)
      {
        VariablePtr r = Space(rnd(1, 3)).createVariable(nm);
        roots.push_back(r);
        x.push_back(dot(r, rnd(1, 2)));
      }
      else if(k == 2)
      {
        int a = rnd(1, 2), b = rnd(1, 2), g = rnd(0, 1);
        VariablePtr r = Space(a + b + g).createVariable(nm);
        roots.push_back(r);
        auto s1 = r->subvariable(Space(a), nm + "a"), s2 = r->subvariable(Space(b), nm + "b", Space(a + g));
        x.push_back(s2);
        x.push_back(s1);
      }
      else
      {
        VariablePtr r = Space(rnd(1, 4)).createVariable(nm);
        roots.push_back(r);
        x.push_back(r);
      }
    }
    stranger = Space(rnd(1, 3)).createVariable("stranger");
  }
  void fresh()
  {
    for(auto & r : roots)
    {
      VariablePtr v = r;
      for(int k = 0; k < 4; ++k)
      {
        v->set(rv(v->size()));
        v = dot(v);
      }
    }
  }
};

template<typename F>
static bool refused(F f)
{
  try
  {
    f();
  }
  catch(const std::exception &)
  {
    return true;
  }
  return false;
}

/** model: matrix of each variable, in order of first appearance */
struct Model
{
  int m;
  std::vector<std::pair<VariablePtr, MatrixXd>> t;
  VectorXd b;
  MatrixXd * of(const VariablePtr & x)
  {
    for(auto & p : t)
      if(p.first == x) return &p.second;
    return nullptr;
  }
  void add(const MatrixXd & A, const VariablePtr & x)
  {
    if(auto * M = of(x))
      *M += A;
    else
      t.push_back({x, A});
  }
  VectorXd eval(int d) const
  {
    VectorXd r = d ? VectorXd::Zero(m).eval() : b;
    for(auto & p : t)
    {
      VariablePtr v = p.first;
      if(d) v = dot(v);
      r += p.second * v->value();
    }
    return r;
  }
};

static std::string info(const Model & M)
{
  vp::Msg s;
  s << "size " << M.m;
  for(auto & p : M.t) s << " + [" << p.second << "] " << p.first->name();
  return s;
}

template<typename P>
static void structure(P & p, Model & M, const std::string & ctx)
{
  vp::explored()++;
  EXPECT_VP(p.size() == M.m && p.rSize() == M.m && p.imageSpace().isEuclidean(), "the size", ctx);
  const auto & vv = p.variables();
  bool ok = vv.numberOfVariables() == int(M.t.size());
  for(int i = 0; ok && i < vv.numberOfVariables(); ++i) ok = vv[i] == M.t[size_t(i)].first;
  EXPECT_VP(ok, "the variables, once each, in order", ctx);
  for(auto & q : M.t)
  {
    auto J = p.jacobian(*q.first);
    EXPECT_VP(same(J, q.second), "the matrix of a variable", ctx << " " << q.first->name() << ": " << MatrixXd(J));
    EXPECT_VP(sound(J.properties(), J), "the annotations of a matrix hold", ctx << " " << q.first->name());
    EXPECT_VP(p.linearIn(*q.first), "linear in its variables", ctx);
  }
}

static void derivatives(Fun & f, Model & M, const std::string & ctx)
{
  EXPECT_VP(same(f.normalAcceleration(), VectorXd::Zero(M.m)), "the drift term is zero", ctx);
  for(auto & q : M.t)
    EXPECT_VP(same(f.JDot(*q.first), MatrixXd::Zero(M.m, q.first->size())), "the derivative of the matrices is zero", ctx);
  EXPECT_VP(same(f.b(), M.b), "the constant term", ctx);
  EXPECT_VP(sound(f.b().properties(), MatrixXd(f.b())) || M.m == 0, "the annotations of the constant term hold", ctx);
}

static void functions()
{
  Vars V(rnd(1, 4));
  V.fresh();
  Model M;
  M.m = rnd(1, 4);
  M.b = VectorXd::Zero(M.m);
  int n = rnd(1, int(V.x.size()));
  std::vector<VariablePtr> x(V.x.begin(), V.x.begin() + n);
  bool rep = rnd(0, 4) == 0;
  if(rep) x.push_back(x[size_t(rnd(0, n - 1))]);
  std::vector<MatrixXd> A;
  for(auto & v : x) A.push_back(rm(M.m, v->size()));
  std::shared_ptr<BasicLinearFunction> f;
  int kind = rnd(0, 6);
  vp::Msg c;
  c << "kind " << kind << " size " << M.m;
  for(auto & v : x) c << " " << v->name();
  std::string ctx = c;
  vp::context() = ctx;
  std::vector<MatrixConstRef> Ar(A.begin(), A.end());
  if(kind == 6) // identity
  {
    x.resize(1);
    M.m = x[0]->size();
    M.b = VectorXd::Zero(M.m);
    M.add(MatrixXd::Identity(M.m, M.m), x[0]);
    f = std::make_shared<function::IdentityFunction>(x[0]);
    EXPECT_VP(f->jacobian(*x[0]).properties().isIdentity(), "the matrix of an identity function is annotated so", ctx);
    EXPECT_VP(refused([&] { f->A(rm(M.m, M.m)); }) && refused([&] { f->A(rm(M.m, M.m), *x[0]); }) && refused([&] { f->b(rv(M.m)); }),
              "the matrix and constant of an identity function cannot be changed", ctx);
  }
  else if(kind == 5) // set later
  {
    if(x.size() == 1 && rnd(0, 1))
      f = std::make_shared<BasicLinearFunction>(M.m, x[0]);
    else
      f = std::make_shared<BasicLinearFunction>(M.m, x);
    M.b = rv(M.m);
    for(size_t i = 0; i < size_t(n); ++i)
    {
      f->A(A[i], *x[i]);
      M.add(A[i], x[i]);
    }
    f->b(M.b);
  }
  else
  {
    bool wb = kind % 2;
    if(wb) M.b = rv(M.m);
    // data of wrong size
    if(rnd(0, 5) == 0)
    {
      auto B = A;
      auto y = x;
      VectorXd b = M.b;
      size_t k = size_t(rnd(0, int(B.size()) - 1));
      int w = rnd(0, wb ? 4 : 3);
      if(w == 0 && (k > 0 || wb)) B[k] = rm(M.m + 1, x[k]->size());
      else if(w == 1 || w == 0) B[k] = rm(M.m, x[k]->size() + 1);
      else if(w == 2) B[k] = rm(M.m, x[k]->size() - 1);
      else if(w == 3) y.push_back(V.stranger);
      else b = rv(M.m + 1 - 2 * rnd(0, 1));
      std::vector<MatrixConstRef> Br(B.begin(), B.end());
      EXPECT_VP(refused([&] {
                  if(wb) BasicLinearFunction(Br, y, b);
                  else BasicLinearFunction(Br, y);
                }),
                "a function with data of wrong size is refused", ctx << " wrong " << w << " at " << k);
      return;
    }
    for(size_t i = 0; i < x.size(); ++i) M.add(A[i], x[i]);
    if(x.size() == 1 && rnd(0, 1))
      f = wb ? std::make_shared<BasicLinearFunction>(A[0], x[0], M.b) : std::make_shared<BasicLinearFunction>(A[0], x[0]);
    else
      f = wb ? std::make_shared<BasicLinearFunction>(Ar, x, M.b) : std::make_shared<BasicLinearFunction>(Ar, x);
  }
  for(auto & a : A) a.setConstant(777); // the function has copies
  auto gv = utils::generateUpdateGraph(f, FOP::Output::Value, Fun::Output::Velocity);
  for(int step = 0; step < 6; ++step)
  {
    ctx = vp::Msg() << std::string(c) << " step " << step << ": " << info(M);
    vp::context() = ctx;
    structure(*f, M, ctx);
    derivatives(*f, M, ctx);
    if(rnd(0, 1)) gv->execute();
    else
    {
      f->updateValue();
      f->updateVelocity();
    }
    EXPECT_VP(same(f->value(), M.eval(0)), "the value is the sum of the matrices times the values plus the constant",
              ctx << ": " << f->value().transpose() << " expected " << M.eval(0).transpose());
    EXPECT_VP(same(f->velocity(), M.eval(1)), "the velocity is the sum of the matrices times the derivatives",
              ctx << ": " << f->velocity().transpose() << " expected " << M.eval(1).transpose());
    for(int k = rnd(1, 3); k-- > 0;)
    {
      VariablePtr v = M.t[size_t(rnd(0, int(M.t.size()) - 1))].first;
      switch(kind == 6 ? 0 : rnd(0, 7))
      {
        case 0: V.fresh(); break;
        case 1:
        case 2:
          *M.of(v) = rm(M.m, v->size());
          if(M.t.size() == 1 && rnd(0, 1)) f->A(*M.of(v));
          else f->A(*M.of(v), *v);
          break;
        case 3:
        {
          M.b = rv(M.m);
          f->b(M.b);
          break;
        }
        case 4: // annotated data
        {
          if(rnd(0, 1))
          {
            M.b.setZero();
            f->b(M.b, {MP::ZERO});
          }
          else if(v->size() == M.m)
          {
            *M.of(v) = -MatrixXd::Identity(M.m, M.m);
            f->A(*M.of(v), *v, {MP::MINUS_IDENTITY});
          }
          break;
        }
        case 5:
        {
          int w = rnd(0, 2);
          EXPECT_VP(refused([&] { f->A(w == 0 ? rm(M.m + 1, v->size()) : w == 1 ? rm(M.m, v->size() + 1) : rm(M.m, v->size() - 1), *v); }),
                    "a matrix of wrong size is refused", ctx);
          break;
        }
        case 6:
          EXPECT_VP(refused([&] { f->A(rm(M.m, V.stranger->size()), *V.stranger); }), "a matrix for an unknown variable is refused", ctx);
          if(M.t.size() > 1)
            EXPECT_VP(refused([&] { f->A(rm(M.m, v->size())); }), "a matrix for no variable in particular is refused when there are several", ctx);
          break;
        default: EXPECT_VP(refused([&] { f->b(rv(M.m + 1 - 2 * rnd(0, 1))); }), "a constant of wrong size is refused", ctx);
      }
    }
  }
}

static void constraints()
{
  Vars V(rnd(1, 4));
  V.fresh();
  Model M;
  M.m = rnd(1, 4);
  M.b = VectorXd::Zero(M.m);
  int n = rnd(1, int(V.x.size()));
  std::vector<VariablePtr> x(V.x.begin(), V.x.begin() + n);
  Type t = Type(rnd(0, 3));
  RHS r = RHS(rnd(0, 2));
  bool ds = t == Type::DOUBLE_SIDED;
  int kind = rnd(0, 2); // 0: set later, others: constructors with data
  if(kind && rnd(0, 4) == 0) x.push_back(x[size_t(rnd(0, n - 1))]);
  std::vector<MatrixXd> A;
  for(auto & v : x) A.push_back(rm(M.m, v->size()));
  std::vector<MatrixConstRef> Ar(A.begin(), A.end());
  VectorXd l = rv(M.m), u = l + rv(M.m).cwiseAbs(), b = rv(M.m);
  vp::Msg c;
  c << "kind " << kind << " size " << M.m << " type " << int(t) << " rhs " << int(r);
  for(auto & v : x) c << " " << v->name();
  std::string ctx = c;
  vp::context() = ctx;
  using BLC = constraint::BasicLinearConstraint;
  std::shared_ptr<BLC> f;
  bool one = x.size() == 1 && rnd(0, 1);
  if(rnd(0, 4) == 0) // refusals
  {
    auto B = A;
    auto y = x;
    VectorXd b2 = b, l2 = l, u2 = u;
    Type t2 = t;
    RHS r2 = r;
    size_t k = size_t(rnd(0, int(B.size()) - 1));
    int w = rnd(0, 5);
    int ct = rnd(0, 2); // A; A b; A l u
    if(w == 4 && !ct) w = 5;
    if(w == 0 && (k > 0 || ct)) B[k] = rm(M.m + 1, x[k]->size());
    else if(w <= 1) B[k] = rm(M.m, x[k]->size() + 1);
    else if(w == 2) B[k] = rm(M.m, x[k]->size() - 1);
    else if(w == 3) y.push_back(V.stranger);
    else if(w == 4 && ct)
    {
      (ct == 1 ? b2 : rnd(0, 1) ? l2 : u2) = rv(M.m + 1);
    }
    else if(ct == 2) r2 = RHS::ZERO;
    else t2 = Type::DOUBLE_SIDED;
    std::vector<MatrixConstRef> Br(B.begin(), B.end());
    if(r2 == RHS::ZERO && ct == 1 && w < 5 && rnd(0, 1)) r2 = RHS::AS_GIVEN;
    if(ct < 2 && w < 5 && t2 == Type::DOUBLE_SIDED) t2 = Type::EQUAL;
    if(ct == 2 && w < 5 && r2 == RHS::ZERO) r2 = RHS::OPPOSITE;
    EXPECT_VP(refused([&] {
                if(ct == 0) BLC(Br, y, t2);
                else if(ct == 1) BLC(Br, y, b2, t2, r2);
                else BLC(Br, y, l2, u2, r2);
              }),
              "a constraint with data of wrong size or convention is refused", ctx << " wrong " << w << " ctor " << ct << " at " << k);
    return;
  }
  if(kind == 0)
  {
    if(ds && r == RHS::ZERO)
    {
      EXPECT_VP(refused([&] { BLC(M.m, x, t, r); }), "a two-sided constraint with zero right-hand side is refused", ctx);
      return;
    }
    f = one ? std::make_shared<BLC>(M.m, x[0], t, r) : std::make_shared<BLC>(M.m, x, t, r);
    for(size_t i = 0; i < x.size(); ++i) f->A(A[i], *x[i]);
    if(r != RHS::ZERO)
    {
      if(ds)
      {
        f->l(l);
        f->u(u);
      }
      else f->b(b);
    }
  }
  else if(ds)
  {
    if(r == RHS::ZERO) r = RHS::OPPOSITE;
    f = one ? std::make_shared<BLC>(A[0], x[0], l, u, r) : std::make_shared<BLC>(Ar, x, l, u, r);
  }
  else if(r == RHS::ZERO)
    f = one ? std::make_shared<BLC>(A[0], x[0], t) : std::make_shared<BLC>(Ar, x, t);
  else
    f = one ? std::make_shared<BLC>(A[0], x[0], b, t, r) : std::make_shared<BLC>(Ar, x, b, t, r);
  for(size_t i = 0; i < x.size(); ++i) M.add(A[i], x[i]);
  for(auto & a : A) a.setConstant(777);
  auto gv = utils::generateUpdateGraph(f, FOP::Output::Value);
  for(int step = 0; step < 6; ++step)
  {
    ctx = vp::Msg() << std::string(c) << " step " << step << ": " << info(M);
    vp::context() = ctx;
    structure(*f, M, ctx);
    EXPECT_VP(f->type() == t && f->rhs() == r && f->isEquality() == (t == Type::EQUAL), "the type and convention", ctx);
    using O = Cstr::Output;
    bool z = r == RHS::ZERO;
    EXPECT_VP(f->isOutputEnabled(O::L) == (!z && (ds || t == Type::GREATER_THAN)), "the lower bound is exposed exactly when there is one", ctx);
    EXPECT_VP(f->isOutputEnabled(O::U) == (!z && (ds || t == Type::LOWER_THAN)), "the upper bound is exposed exactly when there is one", ctx);
    EXPECT_VP(f->isOutputEnabled(O::E) == (!z && t == Type::EQUAL), "the equality vector is exposed exactly when there is one", ctx);
    EXPECT_VP(f->isOutputEnabled(FOP::Output::Value) && f->isOutputEnabled(FOP::Output::Jacobian), "value and matrices are exposed", ctx);
    if(!z)
    {
      if(ds) EXPECT_VP(same(f->l(), l) && same(f->u(), u), "the bounds are those given", ctx);
      if(t == Type::EQUAL) EXPECT_VP(same(f->e(), b), "the equality vector is the one given", ctx);
      if(t == Type::GREATER_THAN) EXPECT_VP(same(f->l(), b), "the lower bound is the one given", ctx);
      if(t == Type::LOWER_THAN) EXPECT_VP(same(f->u(), b), "the upper bound is the one given", ctx);
    }
    if(rnd(0, 1)) gv->execute();
    else f->updateValue();
    EXPECT_VP(same(f->value(), M.eval(0)), "the value is the sum of the matrices times the values",
              ctx << ": " << f->value().transpose() << " expected " << M.eval(0).transpose());
    for(int k = rnd(1, 3); k-- > 0;)
    {
      VariablePtr v = M.t[size_t(rnd(0, int(M.t.size()) - 1))].first;
      switch(rnd(0, 7))
      {
        case 0: V.fresh(); break;
        case 1:
        case 2:
          *M.of(v) = rm(M.m, v->size());
          if(M.t.size() == 1 && rnd(0, 1)) f->A(*M.of(v));
          else f->A(*M.of(v), *v);
          break;
        case 3:
        {
          VectorXd q = rv(M.m);
          EXPECT_VP(refused([&] { f->b(q); }) == (z || ds), "b is set exactly on one-sided constraints with a right-hand side", ctx);
          if(!z && !ds) b = q;
          q = rv(M.m);
          EXPECT_VP(refused([&] { f->l(q); }) == (z || !ds), "l is set exactly on two-sided constraints", ctx);
          if(!z && ds) l = q;
          q = rv(M.m);
          EXPECT_VP(refused([&] { f->u(q); }) == (z || !ds), "u is set exactly on two-sided constraints", ctx);
          if(!z && ds) u = q;
          break;
        }
        case 4:
          if(v->size() == M.m)
          {
            *M.of(v) = MatrixXd::Identity(M.m, M.m);
            f->A(*M.of(v), *v, {MP::IDENTITY});
          }
          break;
        case 5:
        {
          int w = rnd(0, 2);
          EXPECT_VP(refused([&] { f->A(w == 0 ? rm(M.m + 1, v->size()) : w == 1 ? rm(M.m, v->size() + 1) : rm(M.m, v->size() - 1), *v); }),
                    "a matrix of wrong size is refused", ctx);
          break;
        }
        case 6:
          EXPECT_VP(refused([&] { f->A(rm(M.m, V.stranger->size()), *V.stranger); }), "a matrix for an unknown variable is refused", ctx);
          if(M.t.size() > 1)
            EXPECT_VP(refused([&] { f->A(rm(M.m, v->size())); }), "a matrix for no variable in particular is refused when there are several", ctx);
          break;
        default:
        {
          int d = M.m + 1 - 2 * rnd(0, 1);
          EXPECT_VP(refused([&] { f->b(rv(d)); }) && refused([&] { f->l(rv(d)); }) && refused([&] { f->u(rv(d)); }), "vectors of wrong size are refused", ctx);
        }
      }
    }
  }
}

SECTION("functions", 4)
{
  while(vp::more()) functions();
}
SECTION("constraints", 4)
{
  while(vp::more()) constraints();
}
