// C10: assembled data is equivalent to the source constraint. Slacks of the assembled rows, evaluated at random points
// of the space of the non substituted variables, against the slacks of the source at the corresponding point.
#include "vp.h"
#include <Eigen/Dense>
#include <tvm/Space.h>
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/hint/internal/Substitutions.h>
#include <tvm/requirements/SolvingRequirements.h>
#include <tvm/scheme/internal/Assignment.h>
#include <tvm/scheme/internal/AssignmentTarget.h>
#include <tvm/scheme/internal/helpers.h>
using namespace Eigen;
using namespace tvm;
using namespace tvm::constraint;
using namespace tvm::requirements;
using namespace tvm::scheme::internal;
using tvm::internal::MatrixProperties;
using MS = MatrixProperties;

static const char * tn[] = {"=", ">=", "<=", "<<"};
static const char * rn[] = {"0", "b", "-b"};
static const double INF = 1e100;

static double val() { return vp::rndd(); }
static MatrixXd rndM(int r, int c)
{
  MatrixXd m(r, c);
  for(int i = 0; i < r; ++i)
    for(int j = 0; j < c; ++j) m(i, j) = val();
  return m;
}
static double nz()
{
  double v = 0;
  while(v == 0) v = val();
  return v;
}

/** What the memory of a target says */
struct Mem
{
  MatrixXd A, A2;
  VectorXd b, l, u, b2, l2, u2;
  std::shared_ptr<Range> range;
  Type t;
  RHS r;
  bool second = false;
  MatrixXd & cA() { return second ? A2 : A; }
  VectorXd & cb() { return second ? b2 : b; }
  VectorXd & cl() { return second ? l2 : l; }
  VectorXd & cu() { return second ? u2 : u; }
};

enum Kind { KGEN, KID, KMID, KDIAG, KZERO };
static MatrixXd kindMat(Kind k, int r, int c)
{
  switch(k)
  {
    case KID: return MatrixXd::Identity(r, c);
    case KMID: return -MatrixXd::Identity(r, c);
    case KZERO: return MatrixXd::Zero(r, c);
    case KDIAG:
    {
      MatrixXd m = MatrixXd::Zero(r, c);
      for(int i = 0; i < r; ++i) m(i, i) = nz();
      return m;
    }
    default: return rndM(r, c);
  }
}
static MatrixProperties kindProp(Kind k)
{
  switch(k)
  {
    case KID: return {MS::Shape::IDENTITY};
    case KMID: return {MS::Shape::MINUS_IDENTITY};
    case KZERO: return {MS::Shape::ZERO};
    case KDIAG: return {MS::Shape::DIAGONAL, MS::Invertibility(true)};
    default: return {};
  }
}

struct Src
{
  std::vector<VariablePtr> x;
  std::vector<MatrixXd> A;
  std::vector<Kind> k;
  VectorXd l, u; // b is l for >= and =, u for <=
  Type t;
  RHS r;
  int n;
  std::shared_ptr<BasicLinearConstraint> c;

  void fresh()
  {
    for(size_t i = 0; i < x.size(); ++i) A[i] = kindMat(k[i], n, x[i]->size());
    freshRhs();
  }
  void freshRhs()
  {
    l = rndM(n, 1);
    u = rndM(n, 1);
    if(t == Type::DOUBLE_SIDED) // a two-sided constraint has its lower side below the other
      for(int i = 0; i < n; ++i)
        if(sgn() * l(i) > sgn() * u(i)) std::swap(l(i), u(i));
  }
  void push()
  {
    for(size_t i = 0; i < x.size(); ++i) c->A(A[i], *x[i], kindProp(k[i]));
    if(r == RHS::ZERO) return;
    if(t == Type::DOUBLE_SIDED)
    {
      c->l(l);
      c->u(u);
    }
    else
      c->b(t == Type::LOWER_THAN ? u : l);
  }
  void make()
  {
    fresh();
    std::vector<MatrixConstRef> As(A.begin(), A.end());
    if(t == Type::DOUBLE_SIDED)
      c = std::make_shared<BasicLinearConstraint>(As, x, l, u, r);
    else if(r == RHS::ZERO)
      c = std::make_shared<BasicLinearConstraint>(As, x, t);
    else
      c = std::make_shared<BasicLinearConstraint>(As, x, t == Type::LOWER_THAN ? u : l, t, r);
    push();
  }
  double sgn() const { return r == RHS::ZERO ? 0 : r == RHS::OPPOSITE ? -1 : 1; }
};

static std::string desc(const Src & s, const Mem & m)
{
  return vp::Msg() << "source (" << tn[int(s.t)] << " " << rn[int(s.r)] << ") size " << s.n << ", " << s.x.size()
                   << " variables, to target (" << tn[int(m.t)] << " " << rn[int(m.r)] << ") of " << m.range->dim
                   << " rows at " << m.range->start;
}

struct Pool
{
  std::vector<VariablePtr> base;  // columns are allotted by those
  std::vector<VariablePtr> parts; // pieces
};

struct Case
{
  Src s;
  Mem m;
  std::vector<VariablePtr> xs;                                        // substituted
  std::vector<std::shared_ptr<function::BasicLinearFunction>> subs;   // by these
  std::vector<VectorXd> ds;
  std::vector<std::vector<MatrixXd>> Cs;
  std::vector<VariablePtr> all;     // every leaf variable (no sub-variable)
  VariableVector vars;              // the variables of the problem
  std::shared_ptr<SolvingRequirementsWithCallbacks> req;
  double scal = 1;
  std::string ctx;
  std::unique_ptr<hint::internal::Substitutions> S;
  std::unique_ptr<Assignment> a;

  void setVars(bool extra)
  {
    (void)extra;
    // a random order of the non substituted variables
    std::vector<VariablePtr> o;
    for(auto & v : all)
    {
      // cut out the substituted parts
      std::vector<char> cut(size_t(v->size()), 0);
      for(auto & x : xs)
        if(v->contains(*x))
          for(int i = 0; i < x->size(); ++i) cut[size_t(x->subvariableRange().start + i)] = 1;
      int i = 0;
      while(i < v->size())
      {
        int j = i;
        while(j < v->size() && cut[size_t(j)] == cut[size_t(i)]) ++j;
        if(!cut[size_t(i)]) o.push_back(j - i == v->size() ? v : v->subvariable(j - i, "p", i));
        i = j;
      }
    }
    std::shuffle(o.begin(), o.end(), vp::rng());
    vars = VariableVector();
    for(auto & v : o) vars.add(v);
  }

  double weight(int i) const
  {
    double w = req->weight().value();
    if(!req->anisotropicWeight().isDefault()) w *= req->anisotropicWeight().value()(i);
    return std::sqrt(w) * scal;
  }

  AssignmentTarget target()
  {
    if(m.t == Type::DOUBLE_SIDED) return AssignmentTarget(m.range, MatrixRef(m.cA()), VectorRef(m.cl()), VectorRef(m.cu()), m.r);
    if(m.r == RHS::ZERO) return AssignmentTarget(m.range, MatrixRef(m.cA()), m.t);
    return AssignmentTarget(m.range, MatrixRef(m.cA()), VectorRef(m.cb()), m.t, m.r);
  }

  void garbage()
  {
    auto g = [](auto & M) {
      for(int i = 0; i < M.rows(); ++i)
        for(int j = 0; j < M.cols(); ++j) M(i, j) = 100 + vp::rnd(0, 50);
    };
    g(m.cA());
    g(m.cb());
    g(m.cl());
    g(m.cu());
  }

  /** columns written, for the current layout */
  std::vector<char> touched(int cols)
  {
    std::vector<char> t(size_t(cols), 0);
    auto mark = [&](const VariablePtr & v) {
      auto r = v->getMappingIn(vars);
      for(int i = 0; i < r.dim; ++i) t[size_t(r.start + i)] = 1;
    };
    for(auto & p : vars)
      for(auto & x : s.x)
        if(x->size() && p->intersects(*x))
        {
          // the part of x in p
          for(int i = 0; i < p->size(); ++i)
          {
            auto c = p->size() == 1 ? p : p->subvariable(1, "c", i);
            if(x->contains(*c)) t[size_t(p->getMappingIn(vars).start + i)] = 1;
          }
        }
    for(size_t k = 0; k < xs.size(); ++k)
    {
      bool used = false;
      for(auto & x : s.x) used = used || (x->size() && x->intersects(*xs[k]));
      if(used)
        for(auto & y : subs[k]->variables()) mark(y);
    }
    return t;
  }

  void check(const std::string & when)
  {
    vp::explored()++;
    Mem before = m;
    garbage();
    MatrixXd A0 = m.cA();
    VectorXd b0 = m.cb(), l0 = m.cl(), u0 = m.cu();
    a->run();
    int R = m.range->start, D = m.range->dim, n = s.n;
    auto t = touched(int(m.cA().cols()));
    // nothing else is written
    for(int i = 0; i < m.cA().rows(); ++i)
    {
      bool in = i >= R && i < R + D;
      for(int j = 0; j < m.cA().cols(); ++j)
        if(!(in && t[size_t(j)])) EXPECT_VP(m.cA()(i, j) == A0(i, j), "only the target's rows and columns are written", when << ": A(" << i << "," << j << ") " << ctx);
      if(!in || m.r == RHS::ZERO || m.t == Type::DOUBLE_SIDED) EXPECT_VP(m.cb()(i) == b0(i), "only the target's rows are written", when << " b " << ctx);
      if(!in || m.t != Type::DOUBLE_SIDED)
        EXPECT_VP(m.cl()(i) == l0(i) && m.cu()(i) == u0(i), "only the target's rows are written", when << " l,u " << ctx);
    }
    double ts = m.r == RHS::ZERO ? 0 : m.r == RHS::OPPOSITE ? -1 : 1;
    for(int pt = 0; pt < 4; ++pt)
    {
      for(auto & v : all)
      {
        VectorXd z = rndM(v->size(), 1);
        v->set(z);
      }
      for(size_t k = 0; k < xs.size(); ++k)
      {
        VectorXd z = ds[k];
        for(size_t j = 0; j < Cs[k].size(); ++j) z += Cs[k][j] * subs[k]->variables()[int(j)]->value();
        xs[k]->set(z);
      }
      VectorXd ax = VectorXd::Zero(n);
      for(size_t k = 0; k < s.x.size(); ++k) ax += s.A[k] * s.x[k]->value();
      VectorXd xt = VectorXd::Zero(m.cA().cols());
      for(auto & v : vars)
      {
        auto r = v->getMappingIn(vars);
        xt.segment(r.start, r.dim) = v->value();
      }
      for(int j = 0; j < xt.size(); ++j)
        if(!t[size_t(j)]) xt(j) = 0;
      VectorXd tax = m.cA() * xt;
      for(int i = 0; i < n; ++i)
      {
        double w = weight(i);
        auto eq = [&](double p, double q) { return std::abs(p - q) <= 1e-8 * (1 + std::abs(p) + std::abs(q)); };
        double slo = w * (ax(i) - s.sgn() * s.l(i)), sup = w * (s.sgn() * s.u(i) - ax(i));
        std::string at = vp::Msg() << when << ": row " << i << ", source Ax=" << ax(i) << " l=" << s.l(i) << " u=" << s.u(i)
                                   << " weight " << w << "; target Cx=" << tax(R + i) << " b=" << m.cb()(R + i) << " l=" << m.cl()(R + i)
                                   << " u=" << m.cu()(R + i) << "; " << ctx;
        if(m.t == Type::DOUBLE_SIDED)
        {
          double lo = tax(R + i) - ts * m.cl()(R + i), up = ts * m.cu()(R + i) - tax(R + i);
          if(s.t == Type::EQUAL)
            EXPECT_VP(eq(lo, -up) && eq(std::abs(lo), std::abs(slo)), "equality source to two-sided rows: l = u = b", at);
          else if(s.t == Type::DOUBLE_SIDED)
            EXPECT_VP((eq(lo, slo) && eq(up, sup)) || (eq(lo, sup) && eq(up, slo)), "two-sided source to two-sided rows", at);
          else
          {
            double z = s.t == Type::GREATER_THAN ? slo : sup;
            double inf = w > 0 ? INF : 0;
            if(!(eq(lo, z) && up >= inf) && !(eq(up, z) && lo >= inf))
              vp::fail(eq(lo, z) || eq(up, z) ? "the missing bound of two-sided rows never constrains" : "one-sided source to two-sided rows", at);
          }
        }
        else
        {
          auto slack = [&](int k) {
            double d = tax(R + k) - (m.r == RHS::ZERO ? 0 : ts * m.cb()(R + k));
            return m.t == Type::LOWER_THAN ? -d : d;
          };
          if(s.t == Type::EQUAL)
            EXPECT_VP(eq(std::abs(slack(i)), std::abs(slo)), "equality source to equality rows", at);
          else if(s.t == Type::DOUBLE_SIDED)
          {
            double p = slack(i), q = slack(i + n);
            EXPECT_VP((eq(p, slo) && eq(q, sup)) || (eq(p, sup) && eq(q, slo)), "two-sided source to two stacked one-sided rows", at);
          }
          else
            EXPECT_VP(eq(slack(i), s.t == Type::GREATER_THAN ? slo : sup), "one-sided source to one-sided rows", at);
        }
      }
    }
    // leave a clean memory outside of the rows
    (void)before;
  }
};

static MatrixProperties anyProp(const MatrixXd & M, bool cst)
{
  (void)cst;
  if(M.isZero(0) && vp::rnd(0, 1)) return {MS::Shape::ZERO, MS::Constness(true)};
  return {};
}

static bool buildCase(Case & c, bool withSubs, bool parts)
{
  int nv = vp::rnd(1, 4);
  for(int i = 0; i < nv; ++i)
  {
    int sz = vp::rnd(1, 4);
    c.all.push_back(Space(sz).createVariable("v" + std::to_string(i)));
  }
  // the source
  Src & s = c.s;
  s.n = vp::rnd(1, 4);
  s.t = Type(vp::rnd(0, 3));
  s.r = RHS(s.t == Type::DOUBLE_SIDED ? vp::rnd(1, 2) : vp::rnd(0, 2));
  std::vector<VariablePtr> o = c.all;
  std::shuffle(o.begin(), o.end(), vp::rng());
  int ns = vp::rnd(1, nv);
  for(int i = 0; i < ns; ++i)
  {
    auto v = o[size_t(i)];
    if(parts && v->size() > 1 && vp::rnd(0, 2) == 0)
    {
      int st = vp::rnd(0, v->size() - 1), len = vp::rnd(1, v->size() - st);
      v = v->subvariable(len, "s", st);
    }
    s.x.push_back(v);
    Kind k = KGEN;
    int kk = vp::rnd(0, 5);
    if(kk == 5) k = KZERO;
    if(v->size() == s.n && kk >= 1 && kk <= 3) k = Kind(kk);
    s.k.push_back(k);
  }
  s.A.resize(s.x.size());
  s.make();
  // substitutions
  if(withSubs)
  {
    int nsub = vp::rnd(1, 2);
    for(int q = 0; q < nsub; ++q)
    {
      auto v = c.all[size_t(vp::rnd(0, nv - 1))];
      if(v->size() == 0) continue;
      VariablePtr x = v;
      if(parts && v->size() > 1 && vp::rnd(0, 1))
      {
        int st = vp::rnd(0, v->size() - 1), len = vp::rnd(1, v->size() - st);
        if(len < v->size()) x = v->subvariable(len, "x", st);
      }
      bool ok = true;
      for(auto & p : c.xs) ok = ok && !p->intersects(*x);
      if(ok) c.xs.push_back(x);
    }
    for(size_t q = 0; q < c.xs.size(); ++q)
    {
      std::vector<VariablePtr> ys;
      for(auto & v : c.all)
      {
        bool ok = vp::rnd(0, 1) && v->size() > 0;
        for(auto & p : c.xs) ok = ok && !p->intersects(*v);
        if(ok && parts && v->size() > 1 && vp::rnd(0, 2) == 0)
        {
          int st = vp::rnd(0, v->size() - 1);
          ys.push_back(v->subvariable(vp::rnd(1, v->size() - st), "y", st));
        }
        else if(ok)
          ys.push_back(v);
      }
      if(ys.empty() || vp::rnd(0, 3) == 0)
      {
        VariablePtr z = Space(vp::rnd(1, 3)).createVariable("z" + std::to_string(q));
        c.all.push_back(z);
        ys.push_back(z);
      }
      int m = c.xs[q]->size();
      std::vector<MatrixXd> C;
      std::vector<Kind> ks;
      for(auto & y : ys)
      {
        int kk = vp::rnd(0, 5);
        Kind k = kk == 5 ? KZERO : (y->size() == m && kk >= 1 && kk <= 3) ? Kind(kk) : KGEN;
        ks.push_back(k);
        C.push_back(kindMat(k, m, y->size()));
      }
      VectorXd d = vp::rnd(0, 2) ? VectorXd(rndM(m, 1)) : VectorXd(VectorXd::Zero(m));
      std::vector<MatrixConstRef> Cr(C.begin(), C.end());
      auto f = std::make_shared<function::BasicLinearFunction>(Cr, ys, d);
      for(size_t j = 0; j < ys.size(); ++j) f->A(C[j], *ys[j], kindProp(ks[j]));
      f->b(d, anyProp(d, true));
      c.subs.push_back(f);
      c.Cs.push_back(C);
      c.ds.push_back(d);
    }
    c.S.reset(new hint::internal::Substitutions);
    c.S->variables_ = c.xs;
    c.S->varSubstitutions_ = c.subs;
  }
  c.setVars(true);
  // weights
  c.req = std::make_shared<SolvingRequirementsWithCallbacks>();
  if(vp::rnd(0, 1)) c.req->weight() = Weight(vp::rnd(0, 8) / 2.);
  if(vp::rnd(0, 1))
  {
    VectorXd w(s.n);
    for(int i = 0; i < s.n; ++i) w(i) = vp::rnd(0, 8) / 2.;
    c.req->anisotropicWeight() = AnisotropicWeight(w);
  }
  if(vp::rnd(0, 2) == 0) c.scal = vp::rnd(1, 6) / 2.;
  // the target
  Mem & m = c.m;
  m.t = Type(vp::rnd(0, 3));
  m.r = RHS(m.t == Type::DOUBLE_SIDED ? vp::rnd(1, 2) : vp::rnd(0, 2));
  int dim = s.t == Type::DOUBLE_SIDED && m.t != Type::DOUBLE_SIDED ? 2 * s.n : s.n;
  if(vp::rnd(0, 15) == 0) dim = vp::rnd(0, 8);
  int start = vp::rnd(0, 3), rows = start + dim + vp::rnd(0, 6), cols = c.vars.totalSize() + 3;
  m.range = std::make_shared<Range>(start, dim);
  for(auto M : {&m.A, &m.A2}) M->resize(rows, cols);
  for(auto V : {&m.b, &m.l, &m.u, &m.b2, &m.l2, &m.u2}) V->resize(rows);
  c.ctx = desc(s, m);
  std::ostringstream o2;
  o2 << "; source variables";
  for(size_t i = 0; i < s.x.size(); ++i) o2 << " " << (s.x[i])->name() << "(kind " << s.k[i] << ")";
  o2 << "; variables";
  for(auto & v : c.vars) o2 << " " << (v)->name() << "(" << v->size() << ")";
  for(size_t i = 0; i < c.xs.size(); ++i)
  {
    o2 << "; " << (c.xs[i])->name() << " substituted by";
    for(auto & y : c.subs[i]->variables()) o2 << " " << (y)->name();
  }
  o2 << "; weight " << c.req->weight().value();
  if(!c.req->anisotropicWeight().isDefault()) o2 << " anisotropic";
  o2 << " scalarization " << c.scal;
  c.ctx += o2.str();
  vp::context() = c.ctx;
  // what must be refused
  bool ok = true;
  if((s.t == Type::EQUAL) ? (m.t != Type::EQUAL && m.t != Type::DOUBLE_SIDED) : m.t == Type::EQUAL) ok = false;
  bool nonzero = s.r != RHS::ZERO;
  for(auto & f : c.subs) nonzero = nonzero || !f->b().properties().isZero() || !f->b().properties().isConstant();
  // a substitution of a variable absent of the source does not matter, but is refused by the library as well
  if(m.r == RHS::ZERO && nonzero) ok = false;
  int need = s.t == Type::DOUBLE_SIDED && m.t != Type::DOUBLE_SIDED ? 2 * s.n : s.n;
  if(dim != need) ok = false;
  auto t = c.target();
  bool thrown = false;
  std::string what;
  try
  {
    c.a.reset(new Assignment(s.c, c.req, t, c.vars, withSubs ? c.S.get() : nullptr, c.scal));
  }
  catch(std::exception & e)
  {
    thrown = true;
    what = e.what();
  }
  vp::explored()++;
  // a part of a substituted variable cannot be replaced: refused at present, not required either way
  for(auto & x : c.xs)
    for(auto & v : s.x)
      if(x->intersects(*v) && !v->contains(*x)) return ok && !thrown;
  if(!ok)
    EXPECT_VP(thrown, "a convention that cannot express the source is refused", c.ctx);
  else
    EXPECT_VP(!thrown, "a convention that can express the source is accepted", what << " " << c.ctx);
  return ok && !thrown;
}

static void history(Case & c)
{
  c.check("first run");
  if(vp::failed().size() > 8) return;
  Src & s = c.s;
  Mem & m = c.m;
  int n = vp::rnd(0, 5);
  for(int q = 0; q < n; ++q)
  {
    switch(vp::rnd(0, 5))
    {
      case 0:
        s.fresh();
        s.push();
        c.check("after the source changed");
        break;
      case 1: // new memory, new rows
      {
        if(vp::rnd(0, 1))
        {
          m.second = !m.second;
          auto & t = c.a->target();
          if(m.t == Type::DOUBLE_SIDED)
            t.changeData(MatrixRef(m.cA()), VectorRef(m.cl()), VectorRef(m.cu()));
          else if(m.r == RHS::ZERO)
            t.setA(m.cA());
          else
            t.changeData(MatrixRef(m.cA()), VectorRef(m.cb()));
        }
        if(vp::rnd(0, 1)) c.a->target().range().start = vp::rnd(0, int(m.A.rows()) - m.range->dim);
        c.a->onUpdatedTarget();
        c.check("after the target changed");
        break;
      }
      case 2: // new order
      {
        c.setVars(false);
        c.a->onUpdatedMapping(c.vars, true);
        c.check("after the mapping changed");
        break;
      }
      case 3:
      {
        c.setVars(false);
        c.a->onUpdatedMapping(c.vars, false);
        c.a->onUpdatedTarget();
        c.check("after mapping then target changed");
        break;
      }
      case 4:
      {
        bool sc = false, ve = false;
        if(c.a->changeScalarWeightIsAllowed() && !c.req->weight().isDefault() && vp::rnd(0, 3))
        {
          c.req->weight() = Weight(vp::rnd(0, 8) / 2.);
          sc = true;
        }
        if(c.a->changeVectorWeightIsAllowed() && vp::rnd(0, 3))
        {
          VectorXd w(s.n);
          for(int i = 0; i < s.n; ++i) w(i) = vp::rnd(0, 8) / 2.;
          c.req->anisotropicWeight() = AnisotropicWeight(w);
          ve = true;
        }
        if(!sc && !ve) break;
        try
        {
          c.a->onUpdateWeights(sc, ve);
        }
        catch(std::exception & e)
        {
          vp::fail("a change of weights of the right size is accepted", vp::Msg() << e.what() << " " << c.ctx);
          return;
        }
        c.check(vp::Msg() << "after a change of weights (" << sc << "," << ve << ")");
        break;
      }
      case 5:
      {
        c.setVars(false);
        c.a.reset(new Assignment(Assignment::reprocess(*c.a, c.vars, c.S.get())));
        c.check("after reprocessing");
        break;
      }
    }
  }
}

SECTION("conversions without substitution", 3)
{
  while(vp::more())
  {
    Case c;
    if(buildCase(c, false, vp::rnd(0, 2) == 0)) history(c);
  }
}
SECTION("conversions with substitutions", 3)
{
  while(vp::more())
  {
    Case c;
    if(buildCase(c, true, vp::rnd(0, 1) == 0)) history(c);
  }
}

SECTION("bounds", 3)
{
  while(vp::more())
  {
    int n = vp::rnd(1, 4);
    VariablePtr x = Space(n).createVariable("x");
    Type tt = vp::rnd(0, 2) ? Type::DOUBLE_SIDED : Type(vp::rnd(1, 2));
    int rows = n + vp::rnd(0, 4), start = vp::rnd(0, rows - n);
    auto range = std::make_shared<Range>(start, n);
    VectorXd l[2], u[2];
    for(int k = 0; k < 2; ++k)
    {
      l[k] = VectorXd::Constant(rows, 77);
      u[k] = VectorXd::Constant(rows, 78);
    }
    int cur = 0;
    struct B
    {
      Src s;
      std::unique_ptr<Assignment> a;
    };
    std::vector<std::unique_ptr<B>> bs;
    int nb = vp::rnd(1, 3);
    std::ostringstream ctx;
    ctx << "bounds target " << tn[int(tt)] << ":";
    for(int q = 0; q < nb; ++q)
    {
      auto b = std::make_unique<B>();
      Src & s = b->s;
      s.n = n;
      s.x = {x};
      s.t = Type(vp::rnd(0, 3));
      s.r = RHS(s.t == Type::DOUBLE_SIDED ? vp::rnd(1, 2) : vp::rnd(0, 2));
      s.k = {Kind(vp::rnd(0, 3))};
      s.A.resize(1);
      s.make();
      MatrixProperties p = kindProp(s.k[0]);
      if(s.k[0] == KDIAG)
      {
        int sg = vp::rnd(-1, 1);
        if(sg)
        {
          s.A[0] = sg * s.A[0].cwiseAbs();
          p = MatrixProperties(MS::Shape::DIAGONAL, sg > 0 ? MS::Positiveness::POSITIVE_DEFINITE : MS::Positiveness::NEGATIVE_DEFINITE);
          ctx << (sg > 0 ? " [+]" : " [-]");
        }
      }
      if(s.k[0] == KDIAG || s.k[0] == KGEN) s.c->A(s.A[0], *x, p);
      ctx << " (" << tn[int(s.t)] << " " << rn[int(s.r)] << " kind " << s.k[0] << ")";
      vp::context() = ctx.str();
      bool legal = s.k[0] != KGEN;
      if(tt != Type::DOUBLE_SIDED)
      {
        bool pos = p.isPositiveDefinite(), neg = p.isNegativeDefinite();
        if(s.t == Type::EQUAL || s.t == Type::DOUBLE_SIDED)
          legal = false;
        else
          legal = legal && (s.t == tt ? pos : neg);
      }
      bool thrown = false;
      try
      {
        AssignmentTarget t = tt == Type::DOUBLE_SIDED ? AssignmentTarget(range, VectorRef(l[0]), VectorRef(u[0]))
                                                      : AssignmentTarget(range, VectorRef(tt == Type::GREATER_THAN ? l[0] : u[0]), tt);
        b->a.reset(new Assignment(s.c, t, x, bs.empty()));
      }
      catch(std::exception &)
      {
        thrown = true;
      }
      vp::explored()++;
      if(legal)
        EXPECT_VP(!thrown, "a constraint that can be a bound is accepted", ctx.str());
      else
        EXPECT_VP(thrown, "a constraint that cannot be this bound is refused", ctx.str());
      if(legal && !thrown) bs.push_back(std::move(b));
    }
    if(bs.empty()) continue;
    auto check = [&](const char * when) {
      vp::explored()++;
      l[cur].setConstant(77);
      u[cur].setConstant(78);
      for(auto & b : bs) b->a->run();
      for(int i = 0; i < rows; ++i)
      {
        if(i < start || i >= start + n)
        {
          EXPECT_VP(l[cur](i) == 77 && u[cur](i) == 78, "only the variable's slots are written", ctx.str());
          continue;
        }
        double lo = -1e300, up = 1e300;
        for(auto & b : bs)
        {
          Src & s = b->s;
          double a = s.A[0](i - start, i - start), p = -1e300, q = 1e300;
          if(s.t != Type::LOWER_THAN) p = s.sgn() * s.l(i - start) / a;
          if(s.t == Type::LOWER_THAN || s.t == Type::DOUBLE_SIDED) q = s.sgn() * s.u(i - start) / a;
          if(s.t == Type::EQUAL) q = p;
          if(a < 0 && s.t != Type::EQUAL)
          {
            std::swap(p, q);
            if(s.t == Type::GREATER_THAN) p = -1e300;
            if(s.t == Type::LOWER_THAN) q = 1e300;
          }
          lo = std::max(lo, p);
          up = std::min(up, q);
        }
        auto same = [](double e, double v) {
          if(e <= -INF) return v <= -INF;
          if(e >= INF) return v >= INF;
          return std::abs(e - v) <= 1e-9 * (1 + std::abs(e));
        };
        if(tt != Type::LOWER_THAN)
          EXPECT_VP(same(lo, l[cur](i)), "the lower bound is the largest of those given",
                    when << ": component " << i - start << " expected " << lo << " got " << l[cur](i) << " " << ctx.str());
        else
          EXPECT_VP(l[cur](i) == 77, "the other bound is not written", when << " " << ctx.str());
        if(tt != Type::GREATER_THAN)
          EXPECT_VP(same(up, u[cur](i)), "the upper bound is the smallest of those given",
                    when << ": component " << i - start << " expected " << up << " got " << u[cur](i) << " " << ctx.str());
        else
          EXPECT_VP(u[cur](i) == 78, "the other bound is not written", when << " " << ctx.str());
      }
    };
    check("first run");
    int m = vp::rnd(0, 4);
    for(int q = 0; q < m; ++q)
    {
      switch(vp::rnd(0, 3))
      {
        case 0:
        {
          auto & s = bs[size_t(vp::rnd(0, int(bs.size()) - 1))]->s;
          s.freshRhs();
          if(s.r != RHS::ZERO)
          {
            if(s.t == Type::DOUBLE_SIDED)
            {
              s.c->l(s.l);
              s.c->u(s.u);
            }
            else
              s.c->b(s.t == Type::LOWER_THAN ? s.u : s.l);
          }
          check("after the right-hand side changed");
          break;
        }
        case 1:
        {
          auto & s = bs[size_t(vp::rnd(0, int(bs.size()) - 1))]->s;
          if(s.k[0] == KDIAG)
          {
            auto p = s.c->jacobian(*x).properties();
            for(int i = 0; i < n; ++i) s.A[0](i, i) *= vp::rnd(1, 4);
            s.c->A(s.A[0], *x, p);
          }
          check("after the matrix changed");
          break;
        }
        case 2:
        {
          vp::context() = ctx.str() + " (retargeted)";
          cur = 1 - cur;
          start = vp::rnd(0, rows - n);
          range->start = start;
          for(auto & b : bs)
          {
            if(tt == Type::DOUBLE_SIDED)
              b->a->target().changeData(VectorRef(l[cur]), VectorRef(u[cur]));
            else
              b->a->target().setb(tt == Type::GREATER_THAN ? l[cur] : u[cur]);
            b->a->onUpdatedTarget();
          }
          check("after the target changed");
          break;
        }
        case 3: // as the solvers do when a first bound goes away
        {
          if(bs.size() > 1)
          {
            bs.erase(bs.begin());
            bs[0]->a.reset(new Assignment(Assignment::reprocess(*bs[0]->a, x, true)));
            check("after the first bound was removed");
          }
          break;
        }
      }
    }
  }
}

SECTION("violation evaluations", 0.2)
{
  while(vp::more())
  {
    VariablePtr x = Space(3).createVariable("x");
    auto c = std::make_shared<BasicLinearConstraint>(MatrixXd(rndM(2, 3)), x, VectorXd(rndM(2, 1)), Type::EQUAL);
    MatrixXd A(2, 3);
    VectorXd b(2);
    auto range = std::make_shared<Range>(0, 2);
    for(auto e : {ViolationEvaluationType::L1, ViolationEvaluationType::LINF})
    {
      auto req = std::make_shared<SolvingRequirementsWithCallbacks>(ViolationEvaluation(e));
      VariableVector vv;
      vv.add(x);
      bool thrown = false;
      try
      {
        Assignment a(c, req, AssignmentTarget(range, MatrixRef(A), VectorRef(b), Type::EQUAL, RHS::AS_GIVEN), vv);
      }
      catch(std::exception &)
      {
        thrown = true;
      }
      vp::explored()++;
      EXPECT_VP(thrown, "an evaluation that is not implemented is refused", int(e));
    }
    break;
  }
}
