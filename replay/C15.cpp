// C15: substitutions preserve the solutions of the equality constraints. Oracle: the affine set of the solutions of the
// original constraints against the image, through the substitution functions, of the solutions of the additional ones.
#include "vp.h"
#include <Eigen/Dense>
#include <tvm/Space.h>
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/hint/Substitution.h>
#include <tvm/hint/abstract/SubstitutionCalculatorImpl.h>
#include <tvm/hint/internal/DiagonalCalculator.h>
#include <tvm/hint/internal/GenericCalculator.h>
#include <tvm/hint/internal/Substitutions.h>
using namespace Eigen;
using namespace tvm;
using namespace tvm::constraint;
using namespace tvm::hint;
using namespace tvm::hint::internal;
using tvm::internal::MatrixProperties;
using BLC = BasicLinearConstraint;

static MatrixXd rndM(int r, int c) { return MatrixXd::NullaryExpr(r, c, [] { return double(vp::rnd(-100, 100)) / 50; }); }
/** m by n matrix of rank r, well conditioned enough in general */
static MatrixXd rankM(int m, int n, int r) { return rndM(m, r) * rndM(r, n); }
/** rank, or -1 when it is not clear numerically */
static int rankOf(const MatrixXd & A)
{
  if(A.size() == 0) return 0;
  JacobiSVD<MatrixXd> s(A);
  double m = s.singularValues()(0);
  int r = 0;
  for(int i = 0; i < s.singularValues().size(); ++i)
  {
    double v = s.singularValues()(i);
    if(v > 1e-3 * m && v > 1e-3) ++r;
    else if(v > 1e-11 * std::max(m, 1.)) return -1;
  }
  // too close to the threshold of the decomposition used by the calculators
  if(ColPivHouseholderQR<MatrixXd>(A).rank() != r) return -1;
  return r;
}

/** A part of a variable */
struct Piece
{
  int base, start, size;
  VariablePtr v;
  bool operator==(const Piece & o) const { return base == o.base && start == o.start && size == o.size; }
};
static bool meet(const Piece & a, const Piece & b)
{ return a.base == b.base && a.start < b.start + b.size && b.start < a.start + a.size; }
static bool inside(const Piece & a, const Piece & b)
{ return a.base == b.base && a.start >= b.start && a.start + a.size <= b.start + b.size; }

struct Pool
{
  std::vector<VariablePtr> base;
  std::vector<int> off;
  int n = 0;
  Piece piece()
  {
    int b = vp::rnd(0, int(base.size()) - 1), s = base[size_t(b)]->size();
    if(s == 1 || vp::rnd(0, 2)) return {b, 0, s, base[size_t(b)]};
    int sz = vp::rnd(1, s - 1);
    return part({b, 0, s, base[size_t(b)]}, vp::rnd(0, s - sz), sz);
  }
  Piece part(const Piece & p, int st, int sz)
  {
    if(sz == p.size) return p;
    int a = p.start + st;
    return {p.base, a, sz, base[size_t(p.base)]->subvariable(Space(sz), "part", Space(a))};
  }
  int col(const Piece & p) const { return off[size_t(p.base)] + p.start; }
  Piece of(const VariablePtr & v) const
  {
    for(size_t i = 0; i < base.size(); ++i)
      if(base[i]->contains(*v)) return {int(i), v->getMappingIn(VariableVector({base[i]})).start, v->size(), v};
    return {-1, 0, 0, nullptr};
  }
};

struct Cstr
{
  std::shared_ptr<BLC> c;
  std::vector<Piece> p;
  std::vector<MatrixXd> A;
  std::vector<MatrixProperties> prop;
  VectorXd b;
  RHS rhs;
  int m;
  MatrixXd row(const Pool & P) const
  {
    MatrixXd R = MatrixXd::Zero(m, P.n);
    for(size_t i = 0; i < p.size(); ++i) R.middleCols(P.col(p[i]), p[i].size) += A[i];
    return R;
  }
  VectorXd d() const { return rhs == RHS::ZERO ? VectorXd::Zero(m).eval() : rhs == RHS::AS_GIVEN ? b : (-b).eval(); }
  void make()
  {
    std::vector<VariablePtr> vs;
    for(auto & q : p) vs.push_back(q.v);
    c = std::make_shared<BLC>(m, vs, Type::EQUAL, rhs);
    push();
  }
  void push()
  {
    for(size_t i = 0; i < p.size(); ++i) c->A(A[i], *p[i].v, prop[i]);
    if(rhs != RHS::ZERO) c->b(b);
  }
};

struct Sub
{
  std::vector<size_t> c; // indices of constraints
  std::vector<Piece> x;
  int rank;           // declared
  int wanted;         // rank of the data, for a simple substitution of the generic kind; -1 otherwise
  int kind;           // 0: generic, 1: diagonal calculator
  std::vector<Index> nnz, zeros; // kind 1
  std::shared_ptr<Substitution> s;
};

struct World
{
  Pool P;
  std::vector<Cstr> C;
  std::vector<Sub> S; // those currently declared
  std::string trace;
  void log(const std::string & s)
  {
    trace += s + "; ";
    vp::context() = trace;
  }
  static std::string str(const Piece & p)
  { return "v" + std::to_string(p.base) + "[" + std::to_string(p.start) + "," + std::to_string(p.start + p.size) + ")"; }

  bool xfree(const Piece & p) const
  {
    for(auto & s : S)
      for(auto & x : s.x)
        if(meet(x, p)) return false;
    return true;
  }
  MatrixXd agg(const std::vector<size_t> & cs, const std::vector<Piece> & xs) const
  {
    int m = 0, n = 0;
    for(auto c : cs) m += C[c].m;
    for(auto & x : xs) n += x.size;
    MatrixXd A(m, n);
    m = 0;
    for(auto c : cs)
    {
      MatrixXd R = C[c].row(P);
      n = 0;
      for(auto & x : xs)
      {
        A.block(m, n, C[c].m, x.size) = R.middleCols(P.col(x), x.size);
        n += x.size;
      }
      m += C[c].m;
    }
    return A;
  }

  /** new values for the matrices of the constraints of s, with the same structure */
  void data(Sub & s)
  {
    for(auto ci : s.c)
    {
      Cstr & c = C[ci];
      for(size_t i = 0; i < c.p.size(); ++i)
        if(!c.prop[i].isConstant()) c.A[i] = vp::rnd(0, 9) ? rndM(c.m, c.p[i].size) : MatrixXd::Zero(c.m, c.p[i].size).eval();
      if(s.wanted >= 0)
        for(size_t i = 0; i < c.p.size(); ++i)
          if(inside(s.x[0], c.p[i])) c.A[i].middleCols(s.x[0].start - c.p[i].start, s.x[0].size) = rankM(c.m, s.x[0].size, s.wanted);
      if(s.kind == 1)
        for(size_t i = 0; i < c.p.size(); ++i)
          if(inside(s.x[0], c.p[i]) && !c.prop[i].isConstant())
          {
            auto A = c.A[i].middleCols(s.x[0].start - c.p[i].start, s.x[0].size);
            A.setZero();
            int r = 0;
            for(int k = 0; k < s.x[0].size; ++k)
            {
              bool nz = std::find(s.nnz.begin(), s.nnz.end(), k) != s.nnz.end();
              bool z = std::find(s.zeros.begin(), s.zeros.end(), k) != s.zeros.end();
              if(nz) A(r, k) = vp::rnd(0, 1) ? 1.5 : -0.5 * vp::rnd(1, 4);
              if(nz || z) ++r;
            }
          }
      c.b = rndM(c.m, 1);
    }
  }

  /** Declares a new substitution. Variables substituted are disjoint from those of the other substitutions. */
  bool addSub()
  {
    Sub s;
    s.wanted = -1;
    s.kind = 0;
    int nx = vp::rnd(0, 2) ? 1 : vp::rnd(1, 3);
    for(int i = 0; i < nx; ++i)
    {
      Piece p = P.piece();
      bool ok = xfree(p);
      for(auto & x : s.x) ok = ok && !meet(x, p);
      if(ok) s.x.push_back(p);
    }
    if(s.x.empty()) return false;
    int n = 0;
    for(auto & x : s.x) n += x.size;
    int shape = s.x.size() == 1 ? vp::rnd(0, 5) : 0; // 3: diagonal calculator, 4: auto on a diagonal matrix
    if(shape >= 3) s.kind = shape == 3 || shape == 4;
    int nc = s.kind ? 1 : (vp::rnd(0, 2) ? 1 : vp::rnd(1, 3));
    nc = std::min(nc, n);
    int left = n;
    bool constant = false;
    DiagonalCalculator diag;
    if(shape == 3)
    {
      if(vp::rnd(0, 1))
      {
        int f = vp::rnd(0, n - 1), z = vp::rnd(1, n - f);
        for(int k = f; k < f + z; ++k) s.nnz.push_back(k);
        diag = DiagonalCalculator(f, f + z == n && vp::rnd(0, 1) ? -1 : z);
      }
      else
      {
        for(int k = 0; k < n; ++k)
        {
          int w = vp::rnd(0, 2);
          if(w == 0) s.nnz.push_back(k);
          if(w == 1) s.zeros.push_back(k);
        }
        if(s.nnz.empty()) return false;
        auto a = s.nnz, z = s.zeros;
        std::shuffle(a.begin(), a.end(), vp::rng());
        std::shuffle(z.begin(), z.end(), vp::rng());
        diag = DiagonalCalculator(a, z);
      }
    }
    if(shape == 4)
      for(int k = 0; k < n; ++k) s.nnz.push_back(k);
    std::vector<Cstr> cs;
    for(int i = 0; i < nc; ++i)
    {
      Cstr c;
      c.m = vp::rnd(1, std::max(1, left - (nc - i - 1)));
      if(vp::rnd(0, 1)) c.m = std::max(1, left - (nc - i - 1));
      if(s.kind) c.m = int(s.nnz.size() + s.zeros.size());
      if(s.kind == 0 && vp::rnd(0, 14) == 0) c.m += vp::rnd(1, 2); // more equations than unknowns, at a lower rank
      left -= c.m;
      c.rhs = RHS(vp::rnd(0, 2));
      // its variables: a part of the substituted ones (at least one), possibly as part of a larger piece, and others
      auto add = [&](const Piece & p, MatrixProperties pr) {
        for(auto & q : c.p)
          if(meet(q, p)) return false;
        c.p.push_back(p);
        c.prop.push_back(pr);
        c.A.push_back(rndM(c.m, p.size));
        return true;
      };
      for(size_t k = 0; k < s.x.size(); ++k)
      {
        bool last = i + 1 == nc; // every variable must appear somewhere
        bool seen = false;
        for(auto & d : cs)
          for(auto & q : d.p) seen = seen || inside(s.x[k], q);
        if(vp::rnd(0, 2) == 0 && !(last && !seen) && s.x.size() > 1) continue;
        Piece whole{s.x[k].base, 0, P.base[size_t(s.x[k].base)]->size(), P.base[size_t(s.x[k].base)]};
        MatrixProperties pr;
        if(shape == 4)
        {
          int w = vp::rnd(0, 3);
          constant = w < 3;
          MatrixProperties::Constness cst(constant);
          pr = w == 0   ? MatrixProperties(MatrixProperties::IDENTITY, cst)
               : w == 1 ? MatrixProperties(MatrixProperties::MINUS_IDENTITY, cst)
                        : MatrixProperties(MatrixProperties::DIAGONAL, MatrixProperties::Invertibility(true), cst);
        }
        else if(s.kind == 0 && vp::rnd(0, 4) == 0 && vp::rnd(0, 2) == 0)
          pr = MatrixProperties(MatrixProperties::Constness(true));
        // contained in a larger piece
        bool big = shape != 4 && vp::rnd(0, 3) == 0;
        if(!(big && add(whole, {}))) add(s.x[k], pr);
        if(shape == 4)
        {
          auto & A = c.A.back();
          A = MatrixXd::Identity(c.m, c.m);
          if(pr.isMinusIdentity()) A = -A;
          else if(!pr.isIdentity())
            for(int r = 0; r < c.m; ++r) A(r, r) = 0.5 * vp::rnd(1, 4);
        }
      }
      if(c.p.empty()) add(s.x[0], {});
      bool has = false;
      for(auto & x : s.x)
        for(auto & q : c.p) has = has || inside(x, q);
      if(!has) return false;
      for(int k = vp::rnd(0, 3); k > 0; --k) add(P.piece(), {});
      cs.push_back(c);
    }
    // a constraint with a strict part of a substituted variable is not something that can be declared
    for(auto & c : cs)
      for(auto & q : c.p)
        for(auto & x : s.x)
          if(meet(q, x) && !inside(x, q)) return false;
    for(auto & x : s.x)
    {
      bool seen = false;
      for(auto & c : cs)
        for(auto & q : c.p) seen = seen || inside(x, q);
      if(!seen) return false;
    }
    if(s.x.size() == 1 && nc == 1 && s.kind == 0)
    {
      bool prop = false;
      for(auto & p : cs[0].prop) prop = prop || p.isConstant();
      if(!prop) s.wanted = vp::rnd(0, 2) ? std::min(cs[0].m, n) : vp::rnd(0, std::min(cs[0].m, n));
    }
    size_t c0 = C.size();
    for(auto & c : cs)
    {
      c.b = rndM(c.m, 1);
      s.c.push_back(C.size());
      C.push_back(c);
    }
    data(s);
    std::vector<LinearConstraintPtr> lc;
    for(auto i : s.c)
    {
      C[i].make();
      lc.push_back(C[i].c);
    }
    int m = 0;
    for(auto i : s.c) m += C[i].m;
    int r = rankOf(agg(s.c, s.x));
    if(r < 0)
    {
      C.resize(c0);
      return false;
    }
    s.rank = r;
    bool wrong = vp::rnd(0, 39) == 0 && s.kind == 0;
    if(wrong) s.rank = vp::rnd(0, std::min(m, n));
    std::string l = "substitution of {";
    for(auto & x : s.x) l += str(x) + " ";
    l += "} by ";
    for(auto i : s.c)
    {
      l += std::to_string(C[i].m) + " rows on {";
      for(auto & p : C[i].p) l += str(p) + " ";
      l += "} rhs " + std::string(C[i].rhs == RHS::ZERO ? "0" : C[i].rhs == RHS::AS_GIVEN ? "b" : "-b") + ", ";
    }
    l += "rank " + std::to_string(s.rank) + (s.rank == r ? "" : " (wrong)") + " shape " + std::to_string(shape);
    if(shape == 3)
    {
      l += " nnz";
      for(auto k : s.nnz) l += " " + std::to_string(k);
      l += " zeros";
      for(auto k : s.zeros) l += " " + std::to_string(k);
    }
    log(l);
    std::vector<VariablePtr> xs;
    for(auto & x : s.x) xs.push_back(x.v);
    int given = s.rank == m && vp::rnd(0, 1) ? constant::fullRank : s.rank;
    if(shape == 3)
      s.s = std::make_shared<Substitution>(lc, xs, given, diag);
    else if(shape == 5)
      s.s = std::make_shared<Substitution>(lc, xs, given, GenericCalculator());
    else
      s.s = std::make_shared<Substitution>(lc, xs, given);
    S.push_back(s);
    return true;
  }

  /** groups of interdependent substitutions */
  std::vector<std::vector<size_t>> groups() const
  {
    size_t k = S.size();
    std::vector<std::vector<bool>> d(k, std::vector<bool>(k, false));
    for(size_t i = 0; i < k; ++i)
      for(size_t j = 0; j < k; ++j)
        for(auto c : S[i].c)
          for(auto & p : C[c].p)
            for(auto & x : S[j].x) d[i][j] = d[i][j] || meet(p, x);
    for(size_t l = 0; l < k; ++l)
      for(size_t i = 0; i < k; ++i)
        for(size_t j = 0; j < k; ++j)
          if(d[i][l] && d[l][j]) d[i][j] = true;
    std::vector<bool> done(k, false);
    std::vector<std::vector<size_t>> g;
    for(size_t i = 0; i < k; ++i)
      if(!done[i])
      {
        g.push_back({i});
        for(size_t j = i + 1; j < k; ++j)
          if(d[i][j] && d[j][i])
          {
            g.back().push_back(j);
            done[j] = true;
          }
      }
    return g;
  }
};

/** The oracle. */
static void check(World & W, Substitutions & subs, const std::vector<VariablePtr> & fx)
{
  Pool & P = W.P;
  // the original constraints
  MatrixXd A(0, P.n);
  VectorXd d(0);
  for(auto & s : W.S)
    for(auto c : s.c)
    {
      MatrixXd R = W.C[c].row(P);
      A.conservativeResize(A.rows() + R.rows(), P.n);
      A.bottomRows(R.rows()) = R;
      d.conservativeResize(A.rows());
      d.tail(R.rows()) = W.C[c].d();
    }
  int rA = rankOf(A);
  if(rA < 0) return;
  // columns: the variables (whole space), then the additional ones
  const auto & z = subs.additionalVariables();
  int nz = 0;
  std::map<const Variable *, int> zc;
  for(auto & v : z)
  {
    EXPECT_VP(zc.count(v.get()) == 0, "the additional variables are those of the substitutions", "twice the same");
    zc[v.get()] = P.n + nz;
    nz += v->size();
  }
  int N = P.n + nz;
  std::vector<bool> sub(size_t(P.n), false);
  int nx = 0;
  for(auto & x : subs.variables())
  {
    Piece p = P.of(x);
    if(p.base < 0)
    {
      vp::fail("the variables substituted are the declared ones", "unknown variable");
      return;
    }
    for(int k = 0; k < p.size; ++k)
    {
      EXPECT_VP(!sub[size_t(P.col(p) + k)], "the variables substituted are the declared ones", "substituted twice");
      sub[size_t(P.col(p) + k)] = true;
      ++nx;
    }
  }
  std::vector<bool> want(size_t(P.n), false), oth(size_t(P.n), false);
  for(auto & s : W.S)
  {
    for(auto & x : s.x)
      for(int k = 0; k < x.size; ++k) want[size_t(P.col(x) + k)] = true;
    for(auto c : s.c)
      for(auto & q : W.C[c].p)
        for(int k = 0; k < q.size; ++k) oth[size_t(P.col(q) + k)] = true;
  }
  EXPECT_VP(want == sub, "the variables substituted are the declared ones", "");
  std::vector<bool> got(size_t(P.n), false);
  for(auto & y : subs.otherVariables())
  {
    Piece p = P.of(y);
    for(int k = 0; k < p.size; ++k) got[size_t(P.col(p) + k)] = true;
  }
  for(int k = 0; k < P.n; ++k)
    EXPECT_VP(got[size_t(k)] == (oth[size_t(k)] && !want[size_t(k)]), "the other variables are those of the constraints that remain", "");
  auto place = [&](MatrixXd & M, int r, const VariableVector & vs, auto jac) {
    for(int i = 0; i < vs.numberOfVariables(); ++i)
    {
      auto v = vs[i];
      int col;
      auto it = zc.find(v.get());
      if(it != zc.end())
        col = it->second;
      else
      {
        Piece p = P.of(v);
        if(p.base < 0)
        {
          EXPECT_VP(v->size() == 0, "the additional variables are those of the substitutions", "a variable is not listed");
          continue;
        }
        for(int k = 0; k < p.size; ++k)
          EXPECT_VP(!sub[size_t(P.col(p) + k)], "the substituted variables no longer appear", "");
        col = P.col(p);
      }
      M.block(r, col, M.rows() - r, v->size()) += jac(*v);
    }
  };
  // additional constraints
  MatrixXd E(0, N);
  VectorXd e(0);
  for(auto & c : subs.additionalConstraints())
  {
    int r = int(E.rows());
    E.conservativeResize(r + c->size(), N);
    E.bottomRows(c->size()).setZero();
    place(E, r, c->variables(), [&](const Variable & v) -> MatrixXd { return c->jacobian(v); });
    e.conservativeResize(E.rows());
    e.tail(c->size()) = c->e();
    EXPECT_VP(c->type() == Type::EQUAL && c->rhs() == RHS::AS_GIVEN, "the additional constraints are equalities", "");
  }
  // the map (y,z) -> v
  MatrixXd T = MatrixXd::Zero(P.n, N);
  VectorXd t = VectorXd::Zero(P.n);
  for(int k = 0; k < P.n; ++k)
    if(!sub[size_t(k)]) T(k, k) = 1;
  EXPECT_VP(subs.variableSubstitutions().size() == subs.variables().size(), "one substitution function per variable", "");
  for(size_t i = 0; i < subs.variables().size(); ++i)
  {
    Piece p = P.of(subs.variables()[i]);
    auto & f = subs.variableSubstitutions()[i];
    MatrixXd J = MatrixXd::Zero(p.size, N);
    place(J, 0, f->variables(), [&](const Variable & v) -> MatrixXd { return f->jacobian(v); });
    T.middleRows(P.col(p), p.size) = J;
    t.segment(P.col(p), p.size) = f->b();
    EXPECT_VP(!f->b().properties().isZero() || f->b().norm() == 0, "a constant term declared zero is zero", "variable " << World::str(p) << " b " << f->b().transpose());
  }
  double sc = 1 + T.cwiseAbs().maxCoeff() + (t.size() ? t.cwiseAbs().maxCoeff() : 0);
  if(!(sc < 1e5)) 
  {
    EXPECT_VP(std::isfinite(sc), "the substitution functions are finite", "");
    return;
  }
  // removal of the columns of the substituted variables
  std::vector<int> keep;
  for(int k = 0; k < N; ++k)
    if(k >= P.n || !sub[size_t(k)]) keep.push_back(k);
  MatrixXd Ek(E.rows(), int(keep.size())), Tk(P.n, int(keep.size()));
  for(size_t k = 0; k < keep.size(); ++k)
  {
    Ek.col(int(k)) = E.col(keep[k]);
    Tk.col(int(k)) = T.col(keep[k]);
  }
  // soundness: rows of A T and A t - d are combinations of those of E and -e (Farkas for affine sets), i.e. any solution
  // of E w = e satisfies the original constraints
  MatrixXd G = A * Tk;
  VectorXd g = d - A * t;
  double es = Ek.size() ? 1 + Ek.cwiseAbs().maxCoeff() : 1;
  if(es > 1e5) return;
  VectorXd w0 = VectorXd::Zero(int(keep.size()));
  MatrixXd K = MatrixXd::Identity(int(keep.size()), int(keep.size()));
  bool cons = true;
  int rE = 0;
  if(E.rows() > 0 && keep.size() > 0)
  {
    MatrixXd En = Ek;
    double mx = En.cwiseAbs().maxCoeff();
    if(mx < 1e-9) { rE = 0; }
    else
    {
      rE = rankOf(Ek);
      if(rE < 0) return;
      JacobiSVD<MatrixXd> svd(Ek, ComputeFullU | ComputeFullV);
      VectorXd c = svd.matrixU().leftCols(rE).transpose() * e;
      w0 = svd.matrixV().leftCols(rE) * c.cwiseQuotient(svd.singularValues().head(rE));
      K = svd.matrixV().rightCols(int(keep.size()) - rE);
    }
    cons = (Ek * w0 - e).cwiseAbs().maxCoeff() < 1e-6 * (1 + e.cwiseAbs().maxCoeff());
  }
  else if(E.rows() > 0)
    cons = e.cwiseAbs().maxCoeff() < 1e-6;
  // consistency of the original ones
  MatrixXd Ad(A.rows(), P.n + 1);
  Ad << A, d;
  int rAd = rankOf(Ad);
  if(rAd < 0) return;
  ++vp::explored();
  EXPECT_VP(cons == (rAd == rA), "the additional constraints have solutions exactly when the original ones have",
            "original: " << (rAd == rA) << ", additional: " << cons);
  if(cons && rAd == rA)
  {
    double tol = 1e-7 * sc * es;
    VectorXd r0 = G * w0 - g;
    MatrixXd r1 = G * K;
    if(r0.size()) EXPECT_VP(r0.cwiseAbs().maxCoeff() < tol, "solutions of the additional constraints give solutions of the original ones", "residual " << r0.transpose());
    if(r1.size()) EXPECT_VP(r1.cwiseAbs().maxCoeff() < tol, "solutions of the additional constraints give solutions of the original ones", "residual in the directions of solutions " << r1.cwiseAbs().maxCoeff());
    EXPECT_VP(int(keep.size()) - rE == P.n - rA, "no solution is lost or duplicated",
              "dimension " << int(keep.size()) - rE << " instead of " << P.n - rA);
    MatrixXd TE(Tk.rows() + Ek.rows(), Tk.cols());
    TE << Tk, Ek;
    if(TE.cols() > 0)
    {
      int rt = rankOf(TE);
      EXPECT_VP(rt == -1 || rt == int(keep.size()), "no solution is lost or duplicated", "the additional variables are redundant");
    }
    // with the values
    VectorXd w = w0;
    if(K.cols() > 0) w += K * rndM(int(K.cols()), 1);
    if(w.size() == 0 || w.cwiseAbs().maxCoeff() < 1e4)
    {
      VectorXd full = VectorXd::Zero(N);
      for(size_t k = 0; k < keep.size(); ++k) full(keep[k]) = w(int(k));
      VectorXd v0 = full.head(P.n);
      for(int k = 0; k < P.n; ++k)
        if(sub[size_t(k)]) v0(k) = 1e3;
      for(size_t i = 0; i < P.base.size(); ++i) P.base[i]->set(VectorXd(v0.segment(P.off[i], P.base[i]->size())));
      for(auto & v : z) v->set(VectorXd(full.segment(zc[v.get()], v->size())));
      subs.updateVariableValues();
      VectorXd v(P.n);
      for(size_t i = 0; i < P.base.size(); ++i) v.segment(P.off[i], P.base[i]->size()) = P.base[i]->value();
      for(int k = 0; k < P.n; ++k)
        if(!sub[size_t(k)]) EXPECT_VP(v(k) == v0(k), "the values of the other variables are kept", "");
      VectorXd res = A * v - d;
      if(res.size()) EXPECT_VP(res.cwiseAbs().maxCoeff() < tol * (1 + w.cwiseAbs().sum()), "the values computed for the substituted variables satisfy the original constraints", "residual " << res.transpose());
    }
  }
  // substitute
  for(size_t i = 0; i < P.base.size(); ++i)
  {
    auto x = P.base[i];
    bool cut = false, any = false;
    for(int k = 0; k < x->size(); ++k) any = any || sub[size_t(P.off[i] + k)];
    (void)cut;
    auto vs = subs.substitute(x);
    if(!any) EXPECT_VP(vs.numberOfVariables() == 1 && *vs[0] == *x, "a variable that is not substituted is replaced by itself", "");
    std::vector<bool> in(size_t(N), false), exp(size_t(N), false);
    for(auto & v : vs.variables())
    {
      auto it = zc.find(v.get());
      int col = it != zc.end() ? it->second : P.of(v).base < 0 ? -1 : P.col(P.of(v));
      for(int k = 0; col >= 0 && k < v->size(); ++k) in[size_t(col + k)] = true;
    }
    for(int k = 0; k < x->size(); ++k)
      if(!sub[size_t(P.off[i] + k)]) exp[size_t(P.off[i] + k)] = true;
    for(size_t l = 0; l < subs.variables().size(); ++l)
      if(x->contains(*subs.variables()[l]))
        for(auto & v : subs.variableSubstitutions()[l]->variables().variables())
        {
          auto it = zc.find(v.get());
          int col = it != zc.end() ? it->second : P.of(v).base < 0 ? -1 : P.col(P.of(v));
          for(int k = 0; col >= 0 && k < v->size(); ++k) exp[size_t(col + k)] = true;
        }
    EXPECT_VP(in == exp, "a substituted variable is replaced by those of its functions", "variable v" << i << ": " << vs.numberOfVariables() << " variables");
  }
  for(size_t c = 0; c < W.C.size(); ++c)
  {
    bool u = false;
    for(auto & s : W.S)
      for(auto k : s.c) u = u || k == c;
    EXPECT_VP(subs.uses(W.C[c].c) == u, "the constraints used are those of the substitutions", "");
    auto q = subs.getSubstitutionFor(*W.C[c].c);
    EXPECT_VP((q != nullptr) == u, "the constraints used are those of the substitutions", "getSubstitutionFor");
  }
  (void)fx;
}

static void history()
{
  World W;
  int nb = vp::rnd(2, 6);
  for(int i = 0; i < nb; ++i)
  {
    int s = vp::rnd(1, 4);
    W.P.base.push_back(Space(s).createVariable("v" + std::to_string(i)));
    W.P.off.push_back(W.P.n);
    W.P.n += s;
  }
  vp::context() = "";
  Substitutions subs;
  int rounds = vp::rnd(1, 3);
  for(int r = 0; r < rounds; ++r)
  {
    if(r > 0)
      for(int k = vp::rnd(0, 1); k > 0 && !W.S.empty(); --k)
      {
        size_t i = size_t(vp::rnd(0, int(W.S.size()) - 1));
        W.log("remove substitution " + std::to_string(i));
        subs.remove(*W.S[i].s);
        W.S.erase(W.S.begin() + long(i));
      }
    for(int k = vp::rnd(r == 0, 4); k > 0; --k)
      if(W.addSub()) subs.add(*W.S.back().s);
    auto G = W.groups();
    for(auto & g : G)
      if(g.size() > 1) W.log("group of " + std::to_string(g.size()));
    // overdetermined groups and groups of rank-deficient substitutions may be refused
    bool grouped = false, mayRefuse = false;
    for(auto & g : G)
      if(g.size() > 1)
      {
        std::vector<size_t> cs;
        std::vector<Piece> xs;
        int m = 0;
        for(auto i : g)
        {
          cs.insert(cs.end(), W.S[i].c.begin(), W.S[i].c.end());
          xs.insert(xs.end(), W.S[i].x.begin(), W.S[i].x.end());
        }
        for(auto c : cs) m += W.C[c].m;
        // a constraint having only a part of a variable substituted by the group
        for(auto c : cs)
          for(auto & q : W.C[c].p)
            for(auto & x : xs)
              if(meet(q, x) && !inside(x, q)) mayRefuse = true;
        grouped = true;
        if(rankOf(W.agg(cs, xs)) != m) mayRefuse = true;
        for(auto i : g)
          for(auto c : W.S[i].c)
            (void)c;
        for(auto i : g)
        {
          int mi = 0;
          for(auto c : W.S[i].c) mi += W.C[c].m;
          if(W.S[i].rank != mi) mayRefuse = true;
        }
      }
    (void)grouped;
    W.log("finalize");
    try
    {
      subs.finalize();
    }
    catch(const std::runtime_error & ex)
    {
      EXPECT_VP(mayRefuse, "well-formed substitutions are accepted", ex.what());
      return;
    }
    for(int u = vp::rnd(1, 2); u > 0; --u)
    {
      bool wrong = false, unclear = false;
      for(auto & g : G)
      {
        if(g.size() == 1 && W.S[g[0]].kind == 0)
        {
          auto & s = W.S[g[0]];
          int rk = rankOf(W.agg(s.c, s.x));
          if(rk < 0) unclear = true;
          else if(rk != s.rank) wrong = true;
        }
        else if(g.size() > 1)
        {
          std::vector<size_t> cs;
          std::vector<Piece> xs;
          int m = 0;
          for(auto i : g)
          {
            cs.insert(cs.end(), W.S[i].c.begin(), W.S[i].c.end());
            xs.insert(xs.end(), W.S[i].x.begin(), W.S[i].x.end());
          }
          for(auto c : cs) m += W.C[c].m;
          int rk = rankOf(W.agg(cs, xs));
          if(rk != m) mayRefuse = true;
          if(rk < 0) unclear = true;
        }
      }
      if(unclear) return;
      W.log("update");
      bool threw = false;
      std::string what;
      try
      {
        subs.updateSubstitutions();
      }
      catch(const std::runtime_error & ex)
      {
        threw = true;
        what = ex.what();
      }
      if(threw)
      {
        EXPECT_VP(wrong || mayRefuse, "substitutions of the declared rank are computed", what);
        return;
      }
      EXPECT_VP(!wrong, "a wrong rank is refused", "");
      if(wrong) return;
      check(W, subs, {});
      W.log("new data");
      for(auto & s : W.S)
      {
        W.data(s);
        for(auto c : s.c) W.C[c].push();
      }
    }
  }
}

static bool refused(const std::function<void()> & f, std::string & what)
{
  try
  {
    f();
  }
  catch(const std::runtime_error & e)
  {
    what = e.what();
    return true;
  }
  return false;
}

/** ill-formed substitutions */
static void refusals()
{
  int n = vp::rnd(2, 4);
  VariablePtr x = Space(n).createVariable("x"), y = Space(vp::rnd(1, 3)).createVariable("y"), w = Space(vp::rnd(1, 3)).createVariable("w");
  auto cst = [&](int m, std::vector<VariablePtr> vs, Type t) -> LinearConstraintPtr { return std::make_shared<BLC>(m, vs, t); };
  int m = vp::rnd(1, n);
  std::string what;
  ++vp::explored();
  std::vector<LinearConstraintPtr> cs;
  std::vector<VariablePtr> xs;
  int rank = constant::fullRank;
  int k = vp::rnd(0, 8);
  const char * names[] = {"an inequality is refused", "overlapping variables are refused", "a variable that does not appear is refused",
                          "a constraint without variable is refused", "more equations than unknowns are refused", "no variable is refused",
                          "a constraint on a part of a substituted variable is refused", "a diagonal calculator with inconsistent rows is refused",
                          "a well-formed substitution is accepted"};
  vp::context() = std::string("ill-formed substitution: ") + names[k] + ", x of size " + std::to_string(n) + ", " + std::to_string(m) + " rows";
  DiagonalCalculator diag;
  bool useDiag = false;
  switch(k)
  {
    case 0:
    {
      int bad = vp::rnd(0, 1);
      Type t = vp::rnd(0, 2) == 0 ? Type::GREATER_THAN : vp::rnd(0, 1) ? Type::LOWER_THAN : Type::DOUBLE_SIDED;
      cs = {cst(1, {x, y}, bad == 0 ? t : Type::EQUAL), cst(1, {x, w}, bad == 1 ? t : Type::EQUAL)};
      xs = {x};
      break;
    }
    case 1:
    {
      auto p = x->subvariable(Space(n - 1), "p", Space(vp::rnd(0, 1)));
      auto q = vp::rnd(0, 1) ? x : n > 2 ? x->subvariable(Space(n - 1), "q", Space(vp::rnd(0, 1))) : p;
      cs = {cst(1, {x, y, w}, Type::EQUAL)};
      xs = {y, p, w, q};
      if(vp::rnd(0, 1)) std::swap(xs[0], xs[1]);
      if(vp::rnd(0, 1)) std::swap(xs[2], xs[3]);
      break;
    }
    case 2:
      cs = {cst(1, {x}, Type::EQUAL)};
      xs = {x, y};
      if(vp::rnd(0, 1)) std::swap(xs[0], xs[1]);
      break;
    case 3:
      cs = {cst(1, {x, y}, Type::EQUAL), cst(1, {y, w}, Type::EQUAL)};
      xs = {x};
      if(vp::rnd(0, 1)) std::swap(cs[0], cs[1]);
      break;
    case 4:
      cs = {cst(n, {x, y}, Type::EQUAL), cst(1, {x}, Type::EQUAL)};
      xs = {x};
      rank = vp::rnd(0, 1) ? n + 1 : constant::fullRank;
      if(vp::rnd(0, 2) == 0)
      {
        cs = {cst(m, {x, y}, Type::EQUAL)};
        xs = {x, y};
        rank = m + 1;
      }
      if(vp::rnd(0, 4) == 0) rank = -2;
      break;
    case 5:
      cs = {cst(1, {x, y}, Type::EQUAL)};
      xs = {};
      break;
    case 6:
    {
      auto p = x->subvariable(Space(n - 1), "p", Space(vp::rnd(0, 1)));
      cs = {cst(1, {x, y}, Type::EQUAL), cst(1, {p, w}, Type::EQUAL)};
      xs = {x, w};
      if(vp::rnd(0, 1)) std::swap(cs[0], cs[1]);
      if(vp::rnd(0, 1)) std::swap(xs[0], xs[1]);
      break;
    }
    case 7:
    {
      useDiag = true;
      xs = {x};
      cs = {cst(m, {x, y}, Type::EQUAL)};
      int j = vp::rnd(0, 4);
      if(j == 0) // number of non-zero rows that is not the rank
      {
        diag = DiagonalCalculator(0, m == n ? n - 1 : m + 1);
      }
      else if(j == 1) // beyond the last column
      {
        diag = DiagonalCalculator(n - m + 1, m);
      }
      else if(j == 2)
      {
        std::vector<Index> r;
        for(int i = 0; i < m; ++i) r.push_back(n - m + 1 + i);
        diag = DiagonalCalculator(r);
      }
      else if(j == 3) // more rows than the constraint has
      {
        if(m == n) return;
        std::vector<Index> r;
        for(int i = 0; i < m; ++i) r.push_back(i);
        diag = DiagonalCalculator(r, {m});
      }
      else // not a simple substitution
      {
        cs = {cst(1, {x, y}, Type::EQUAL), cst(1, {x}, Type::EQUAL)};
        diag = DiagonalCalculator(0, 2);
      }
      vp::context() += " case " + std::to_string(j);
      break;
    }
    default:
      cs = {cst(m, {x, y}, Type::EQUAL)};
      xs = {x};
  }
  bool r = refused([&] {
    if(useDiag) Substitution(cs, xs, rank, diag);
    else Substitution(cs, xs, rank);
  }, what);
  EXPECT_VP(r == (k != 8), names[k], what);
}

SECTION("histories of substitutions", 5)
{
  while(vp::more()) history();
}
SECTION("ill-formed substitutions", 1)
{
  while(vp::more()) refusals();
}
