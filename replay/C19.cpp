// C19: bounds. Constraints whose matrices are annotated truthfully, with or without substitutions, are offered as bounds;
// the answers are compared with what the matrices are.
#include "vp.h"
#include <Eigen/LU>
#include <tvm/Variable.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/constraint/internal/LinearizedTaskConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/hint/Substitution.h>
#include <tvm/hint/internal/Substitutions.h>
#include <tvm/scheme/internal/helpers.h>
#include <tvm/task_dynamics/None.h>
using namespace tvm;
using namespace Eigen;
using constraint::Type;
using tvm::internal::MatrixProperties;
using vp::rnd;
using scheme::internal::canBeUsedAsBound;
using scheme::internal::isBound;

static std::string ts(Type t)
{
  switch(t)
  {
    case Type::EQUAL: return "=";
    case Type::GREATER_THAN: return ">=";
    case Type::LOWER_THAN: return "<=";
    default: return "<<";
  }
}
// a matrix with a truthful annotation
struct Mat
{
  MatrixXd M;
  MatrixProperties p;
  bool diag, inv, pd, nd;     // what it is
  bool said, saidPd, saidNd;  // it is said to be diagonal and invertible, of a given sign
  std::string s;
};
static double nz(int sign)
{
  double v = rnd(1, 12) / 4.;
  return sign > 0 ? v : sign < 0 ? -v : rnd(0, 1) ? v : -v;
}
static Mat matrix(int m, int n)
{
  Mat r;
  r.M = MatrixXd::Zero(m, n);
  r.said = r.saidPd = r.saidNd = false;
  int sign = rnd(-1, 1);
  int what = m == n ? rnd(0, 5) : 5;
  std::ostringstream o;
  for(int i = 0; i < std::min(m, n); ++i) r.M(i, i) = nz(sign);
  using P = MatrixProperties;
  auto pos = sign > 0 ? P::POSITIVE_DEFINITE : sign < 0 ? P::NEGATIVE_DEFINITE : P::INDEFINITE;
  switch(what)
  {
    case 0: // diagonal, with more or less said about it
    {
      int k = rnd(0, 4);
      if(k == 0) { r.p = P(P::DIAGONAL, pos, P::Invertibility(true)); r.said = true; if(sign) (sign > 0 ? r.saidPd : r.saidNd) = true; o << "diagonal, invertible, signed"; }
      if(k == 1) { r.p = P(P::DIAGONAL, P::Invertibility(true)); r.said = true; o << "diagonal, invertible"; }
      if(k == 2) { r.p = P(P::DIAGONAL); o << "diagonal"; }
      if(k == 3) { r.p = P(); o << "nothing said"; }
      if(k == 4)
      {
        if(sign) { r.p = P(sign > 0 ? P::POSITIVE_DEFINITE : P::NEGATIVE_DEFINITE); o << "signed"; }
        else { r.p = P(P::Invertibility(true)); o << "invertible"; }
      }
      break;
    }
    case 1:
    {
      double a = nz(sign ? sign : 1);
      if(!sign) sign = 1;
      r.M = MatrixXd::Identity(m, m) * a;
      int k = rnd(0, 2);
      if(k == 0) { r.p = P(P::MULTIPLE_OF_IDENTITY, a > 0 ? P::POSITIVE_DEFINITE : P::NEGATIVE_DEFINITE); r.said = true; (a > 0 ? r.saidPd : r.saidNd) = true; o << "multiple of identity, signed"; }
      if(k == 1) { r.p = P(P::MULTIPLE_OF_IDENTITY, P::Invertibility(true)); r.said = true; o << "multiple of identity, invertible"; }
      if(k == 2) { r.p = P(P::MULTIPLE_OF_IDENTITY); o << "multiple of identity"; }
      break;
    }
    case 2: r.M.setIdentity(); r.p = P(P::IDENTITY); r.said = r.saidPd = true; o << "identity"; break;
    case 3: r.M = -MatrixXd::Identity(m, m); r.p = P(P::MINUS_IDENTITY); r.said = r.saidNd = true; o << "minus identity"; break;
    case 4: // singular
    {
      int k = rnd(0, 4);
      if(k <= 1) { r.M.setZero(); r.p = k ? P(P::ZERO) : P(P::DIAGONAL); o << "zero"; }
      else
      {
        r.M(rnd(0, m - 1), 0) *= 1;
        int z = rnd(0, m - 1);
        r.M(z, z) = 0;
        if(k == 2) { r.p = P(P::DIAGONAL, P::Invertibility(false)); o << "diagonal, singular"; }
        if(k == 3) { r.p = P(P::DIAGONAL); o << "diagonal (singular)"; }
        if(k == 4 && sign) { r.p = P(P::DIAGONAL, sign > 0 ? P::POSITIVE_SEMIDEFINITE : P::NEGATIVE_SEMIDEFINITE); o << "diagonal, semidefinite"; }
      }
      break;
    }
    default: // not diagonal
    {
      for(int i = 0; i < m; ++i)
        for(int j = 0; j < n; ++j)
          if(i != j) r.M(i, j) = rnd(-4, 4) / 4.;
      if(m > 1 && n > 1) r.M(0, 1) = 0.5;
      int k = m == n && m > 1 ? rnd(0, 3) : 0;
      o << "general";
      if(k == 1)
      {
        MatrixXd U = r.M.triangularView<Upper>();
        r.M = U;
        r.p = P(P::UPPER_TRIANGULAR, P::Invertibility(true));
        o << " upper triangular, invertible";
      }
      if(k == 2)
      {
        MatrixXd S = r.M * r.M.transpose();
        S.diagonal().array() += 1;
        r.M = S;
        r.p = P(P::POSITIVE_DEFINITE);
        o << " positive definite";
      }
      if(k == 3)
      {
        MatrixXd L = r.M.triangularView<Lower>();
        r.M = L;
        r.M(1, 0) = 0.75;
        r.p = P(P::LOWER_TRIANGULAR, P::Invertibility(true));
        o << " lower triangular, invertible";
      }
    }
  }
  r.diag = m == n && r.M.isDiagonal(0);
  r.inv = m == n && r.M.fullPivLu().rank() == m;
  r.pd = r.diag && (r.M.diagonal().array() > 0).all();
  r.nd = r.diag && (r.M.diagonal().array() < 0).all();
  o << " [" << r.M << "]";
  r.s = o.str();
  for(auto & ch : r.s)
    if(ch == '\n') ch = ';';
  return r;
}
static VectorXd rv(int n)
{
  VectorXd v(n);
  for(int i = 0; i < n; ++i) v(i) = rnd(-8, 8) / 4.;
  return v;
}

// a constraint that is not linear
struct Curve : constraint::abstract::Constraint
{
  Curve(Type t, VariablePtr x, const Mat & A, bool linear) : Constraint(t, constraint::RHS::AS_GIVEN, int(A.M.rows()))
  {
    addVariable(x, linear);
    jacobian_[x.get()] = A.M;
    jacobian_[x.get()].properties(A.p);
  }
};

struct Made
{
  ConstraintPtr c;
  std::vector<VariablePtr> xs;
  std::vector<Mat> A;
  bool linear = true;
  std::string s;
};
static Made make(const std::vector<VariablePtr> & vars)
{
  Made r;
  std::vector<size_t> o;
  for(size_t i = 0; i < vars.size(); ++i) o.push_back(i);
  std::shuffle(o.begin(), o.end(), vp::rng());
  int nv = rnd(0, 3) ? 1 : rnd(0, 2);
  for(size_t i : o)
  {
    if(int(r.xs.size()) >= nv) break;
    bool meet = false;
    for(auto & x : r.xs) meet = meet || x->intersects(*vars[i]);
    if(!meet) r.xs.push_back(vars[i]);
  }
  int m = r.xs.empty() || rnd(0, 5) == 0 ? rnd(1, 3) : r.xs[0]->size();
  Type t = Type(rnd(0, 3));
  std::ostringstream s;
  for(auto & x : r.xs)
  {
    r.A.push_back(matrix(m, x->size()));
    s << "(" << r.A.back().s << ") " << x->name() << " ";
  }
  s << ts(t);
  int kind = rnd(0, 3);
  if(r.xs.empty())
  {
    struct None : constraint::abstract::Constraint
    {
      None(Type t, int m) : Constraint(t, constraint::RHS::AS_GIVEN, m) {}
    };
    r.c = std::make_shared<None>(t, m);
    s << " (no variable)";
  }
  else if(kind == 0 && r.xs.size() == 1)
  {
    r.linear = rnd(0, 1);
    r.c = std::make_shared<Curve>(t, r.xs[0], r.A[0], r.linear);
    s << (r.linear ? " (own)" : " (not linear)");
  }
  else
  {
    std::vector<MatrixConstRef> Ar;
    for(auto & a : r.A) Ar.push_back(a.M);
    if(kind == 1)
    {
      auto f = std::make_shared<function::BasicLinearFunction>(Ar, r.xs, rv(m));
      for(size_t i = 0; i < r.xs.size(); ++i) f->A(r.A[i].M, *r.xs[i], r.A[i].p);
      task_dynamics::None none;
      VectorXd l = rv(m), u = l + rv(m).cwiseAbs();
      r.c = std::make_shared<constraint::internal::LinearizedTaskConstraint>(t == Type::DOUBLE_SIDED ? Task(f, t, none, l, u) : Task(f, t, none, l));
      s << " (task)";
    }
    else
    {
      auto c = std::make_shared<constraint::BasicLinearConstraint>(m, r.xs, t, constraint::RHS::AS_GIVEN);
      for(size_t i = 0; i < r.xs.size(); ++i) c->A(r.A[i].M, *r.xs[i], r.A[i].p);
      r.c = c;
    }
  }
  r.s = s.str();
  return r;
}

// what is known of the variable of a constraint
struct Sub
{
  bool substituted = false, partly = false, single = false;
  Mat A;
};
static void judge(const Made & c, const Sub & s, bool withSubs, std::function<bool()> bound, std::function<bool(Type)> used, const std::string & ctx)
{
  bool b = bound();
  bool one = c.xs.size() == 1 && c.linear;
  bool can = one && c.A[0].diag && c.A[0].inv && !(withSubs && s.partly) && (!(withSubs && s.substituted) || (s.single && s.A.diag && s.A.inv));
  bool must = one && c.A[0].said && !(withSubs && s.partly) && (!(withSubs && s.substituted) || (s.single && s.A.said));
  EXPECT_VP(!b || can, "only bounds are recognised as bounds", ctx);
  EXPECT_VP(b || !must, "a bound said to be so is recognised", ctx);
  ++vp::explored();
  if(!used) return;
  for(Type t : {Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED})
  {
    bool u = used(t);
    std::string cx = ctx + " for target " + ts(t);
    bool one2 = t == Type::GREATER_THAN || t == Type::LOWER_THAN;
    bool oneC = c.c->type() == Type::GREATER_THAN || c.c->type() == Type::LOWER_THAN;
    EXPECT_VP(!u || b, "what is used as a bound is a bound", cx);
    if(t == Type::EQUAL) EXPECT_VP(!u, "no bound is an equality", cx);
    if(t == Type::DOUBLE_SIDED) EXPECT_VP(u == b, "every bound can be used as a two-sided one", cx);
    if(one2)
    {
      if(!oneC) EXPECT_VP(!u, "an equality or a two-sided constraint is not a one-sided bound", cx);
      else if(u)
      {
        MatrixXd D = c.A[0].M;
        if(withSubs && s.substituted) D = D * s.A.M;
        bool keep = (D.diagonal().array() > 0).all(), flip = (D.diagonal().array() < 0).all();
        EXPECT_VP(c.c->type() == t ? keep : flip, "a one-sided bound has the direction of the target", cx);
      }
      else if(must)
      {
        bool known = c.A[0].saidPd || c.A[0].saidNd;
        bool neg = c.A[0].saidNd;
        if(withSubs && s.substituted)
        {
          known = known && (s.A.saidPd || s.A.saidNd);
          neg = neg != s.A.saidNd;
        }
        EXPECT_VP(!(known && (c.c->type() == t) == !neg), "a one-sided bound said to have the direction of the target is used", cx);
      }
    }
  }
}

static std::vector<VariablePtr> variables(std::ostringstream & h)
{
  std::vector<VariablePtr> r;
  int k = rnd(1, 3);
  for(int i = 0; i < k; ++i)
  {
    int d = rnd(1, 3);
    VariablePtr v = Space(d).createVariable("x" + std::to_string(i));
    r.push_back(v);
    h << "x" << i << "[" << d << "] ";
    if(d > 1 && rnd(0, 1))
    {
      int st = rnd(0, d - 1), l = rnd(1, d - st);
      if(l < d)
      {
        r.push_back(v->subvariable(l, "p" + std::to_string(i), st));
        h << "p" << i << "[" << st << "+" << l << "] ";
      }
    }
  }
  return r;
}

static void given()
{
  std::ostringstream h;
  auto vars = variables(h);
  Made c = make(vars);
  h << ": " << c.s;
  vp::context() = h.str();
  judge(c, {}, false, [&] { return isBound(c.c); }, nullptr, h.str());
  // substitutions, given one by one
  std::vector<VariablePtr> xs;
  std::vector<std::shared_ptr<function::BasicLinearFunction>> fs;
  std::vector<Mat> As;
  std::vector<int> nb;
  std::vector<size_t> o;
  for(size_t i = 0; i < vars.size(); ++i) o.push_back(i);
  std::shuffle(o.begin(), o.end(), vp::rng());
  int k = rnd(0, 3);
  for(size_t i : o)
  {
    if(int(xs.size()) >= k) break;
    bool meet = false;
    for(auto & x : xs) meet = meet || x->intersects(*vars[i]);
    if(meet) continue;
    int n = vars[i]->size();
    int ny = rnd(0, 3) ? 1 : rnd(0, 2);
    std::vector<VariablePtr> ys;
    std::vector<MatrixConstRef> Ar;
    std::vector<Mat> mats;
    mats.reserve(2);
    h << "; " << vars[i]->name() << " =";
    for(int j = 0; j < ny; ++j)
    {
      ys.push_back(Space(rnd(0, 3) ? n : rnd(1, 3)).createVariable("y" + std::to_string(j)));
      mats.push_back(matrix(n, ys.back()->size()));
      Ar.push_back(mats.back().M);
      h << " (" << mats.back().s << ") y" << j;
    }
    h << " + b";
    std::shared_ptr<function::BasicLinearFunction> f;
    if(ny == 0) f = std::make_shared<function::BasicLinearFunction>(n, std::vector<VariablePtr>{});
    else
    {
      f = std::make_shared<function::BasicLinearFunction>(Ar, ys, rv(n));
      for(size_t j = 0; j < ys.size(); ++j) f->A(mats[j].M, *ys[j], mats[j].p);
    }
    xs.push_back(vars[i]);
    fs.push_back(f);
    nb.push_back(ny);
    As.push_back(ny ? mats[0] : Mat{});
  }
  Sub s;
  if(c.xs.size() == 1)
    for(size_t i = 0; i < xs.size(); ++i)
    {
      if(xs[i] == c.xs[0])
      {
        s.substituted = true;
        s.single = nb[i] == 1;
        s.A = As[i];
      }
      else if(xs[i]->intersects(*c.xs[0])) s.partly = true;
    }
  vp::context() = h.str();
  judge(c, s, true, [&] { return isBound(c.c, xs, fs); }, [&](Type t) { return canBeUsedAsBound(c.c, xs, fs, t); }, h.str());
}
SECTION("given substitutions", 3)
{
  while(vp::more()) given();
}

// through the substitutions of a problem: x is defined by A x + B y = b
static void real()
{
  std::ostringstream h;
  int n = rnd(1, 3);
  VariablePtr x = Space(n).createVariable("x"), y = Space(n).createVariable("y"), z = Space(rnd(1, 3)).createVariable("z");
  VariablePtr px = n > 1 ? x->subvariable(n - 1, "px", rnd(0, 1)) : x;
  Mat A = matrix(n, n);
  if(!A.inv || A.M.fullPivLu().rcond() < 1e-2) return;
  Mat B = matrix(n, n);
  bool two = rnd(0, 3) == 0;
  Mat C = matrix(n, z->size());
  std::vector<MatrixConstRef> Ar;
  std::vector<VariablePtr> vs{x, y};
  Ar.push_back(A.M);
  Ar.push_back(B.M);
  if(two)
  {
    vs.push_back(z);
    Ar.push_back(C.M);
  }
  auto def = std::make_shared<constraint::BasicLinearConstraint>(Ar, vs, rv(n), Type::EQUAL);
  def->A(A.M, *x, A.p);
  def->A(B.M, *y, B.p);
  if(two) def->A(C.M, *z, C.p);
  h << "x by (" << A.s << ") x + (" << B.s << ") y" << (two ? " + (" + C.s + ") z" : "") << " = b";
  hint::internal::Substitutions subs;
  subs.add(hint::Substitution(def, x));
  subs.finalize();
  subs.updateSubstitutions();
  Made c = make(n > 1 ? std::vector<VariablePtr>{x, y, z, px} : std::vector<VariablePtr>{x, y, z});
  h << ": " << c.s;
  vp::context() = h.str();
  Sub s;
  if(c.xs.size() == 1)
  {
    if(c.xs[0] == x)
    {
      s.substituted = true;
      s.single = !two;
      s.A.M = -A.M.fullPivLu().solve(B.M);
      for(int i = 0; i < n; ++i)
        for(int j = 0; j < n; ++j)
          if(std::abs(s.A.M(i, j)) < 1e-12) s.A.M(i, j) = 0;
      s.A.diag = s.A.M.isDiagonal(0);
      s.A.inv = s.A.M.fullPivLu().rank() == n;
      s.A.said = s.A.saidPd = s.A.saidNd = false;
    }
    else if(c.xs[0] == px && n > 1) s.partly = true;
  }
  judge(c, s, true, [&] { return isBound(c.c, subs); }, [&](Type t) { return canBeUsedAsBound(c.c, subs, t); }, h.str());
}
SECTION("substitutions of a problem", 1)
{
  while(vp::more()) real();
}
