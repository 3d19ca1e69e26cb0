// Random least-squares control problems on which the real schemes and solver wrappers run with recording back ends
// (replay/backends), and an independent account of the problem that should have been handed over.
#pragma once
#include "vp.h"
#include "backends/capture.h"
#include <tvm/LinearizedControlProblem.h>
#include <tvm/Task.h>
#include <tvm/Variable.h>
#include <tvm/constraint/abstract/LinearConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/scheme/HierarchicalLeastSquares.h>
#include <tvm/scheme/WeightedLeastSquares.h>
#include <tvm/task_dynamics/None.h>
#include "solver/LSSOLLeastSquareSolver.cpp"
#include "solver/LexLSHierarchicalLeastSquareSolver.cpp"
#include "solver/LexLSLeastSquareSolver.cpp"
#include "solver/QLDLeastSquareSolver.cpp"
#include "solver/QuadprogLeastSquareSolver.cpp"

#include <Eigen/LU>
#include <algorithm>
#include <functional>
#include <map>

namespace qp
{
using namespace tvm;
using namespace tvm::requirements;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using tvm::constraint::Type;
using tvm::internal::MatrixProperties;
using vp::rnd;
const double INF = std::numeric_limits<double>::infinity();

inline double nz()
{
  double v = rnd(1, 8) / 4.;
  return rnd(0, 1) ? v : -v;
}
inline MatrixXd rm(int r, int c)
{
  MatrixXd m(r, c);
  for(int i = 0; i < r; ++i)
    for(int j = 0; j < c; ++j) m(i, j) = nz();
  return m;
}
inline VectorXd rv(int n)
{
  VectorXd v(n);
  for(int i = 0; i < n; ++i) v(i) = rnd(-8, 8) / 4.;
  return v;
}
inline const char * tn(Type t) { return t == Type::EQUAL ? "=" : t == Type::GREATER_THAN ? ">=" : t == Type::LOWER_THAN ? "<=" : "<<"; }

/** scalar unknowns are named by (root variable, position) */
struct Var
{
  VariablePtr v;
  int root, start; // components start .. start+size of the root
};

struct T // a task as the user wrote it: sum A_k x_k + b  op  rhs
{
  std::vector<int> xs; // indices in World::vars
  std::vector<MatrixXd> A;
  VectorXd b, rhs, rhs2;
  Type type = Type::EQUAL;
  int prio = 0;
  bool diag = false;
  double w = 1;
  bool hasAw = false;
  VectorXd aw;
  std::shared_ptr<function::BasicLinearFunction> f;
  TaskWithRequirementsPtr tr;
  bool in = false;
  int id = 0;
  std::string str() const
  {
    std::ostringstream o;
    o << "T" << id << "(" << b.size() << tn(type) << " p" << prio << (diag ? " diag" : "") << " on";
    for(int x : xs) o << " x" << x;
    o << ")";
    return o.str();
  }
};

/** l <= a x <= u over the scalar unknowns, columns are numbered over all the roots */
struct Row
{
  VectorXd a;
  double l, u;
};
struct Expected
{
  int n = 0;                       // number of scalar unknowns over all roots
  std::vector<std::vector<Row>> blocks; // constraints with more than one unknown in some row
  VectorXd lo, up;                 // what the constraints with one unknown say
  MatrixXd Q;
  VectorXd c;
  std::vector<bool> used;          // unknowns of the problem
  int nEq = 0, nIneqOnce = 0, nObj = 0;
  std::vector<std::vector<std::vector<Row>>> levels; // soft levels (hierarchical)
  bool empty = true;
};

inline double clip(double v, double big) { (void)big; return v >= 1e100 ? INF : v <= -1e100 ? -INF : v; }
inline bool eq(double a, double b)
{
  if(a == b) return true;
  if(std::isinf(a) || std::isinf(b) || std::isnan(a) || std::isnan(b)) return false;
  return std::abs(a - b) <= 1e-7 * (1 + std::abs(a) + std::abs(b));
}
inline int single(const Row & r)
{
  int k = -1;
  for(int j = 0; j < r.a.size(); ++j)
    if(r.a(j) != 0)
    {
      if(k >= 0) return -1;
      k = j;
    }
  return k;
}
inline Row norm(Row r, bool scale)
{
  for(int j = 0; j < r.a.size(); ++j)
    if(r.a(j) != 0)
    {
      double s = scale ? r.a(j) : (r.a(j) > 0 ? 1. : -1.);
      r.a /= s;
      r.l /= s;
      r.u /= s;
      if(s < 0) std::swap(r.l, r.u);
      return r;
    }
  if(scale)
  {
    double m = std::max(std::isinf(r.l) ? 0. : std::abs(r.l), std::isinf(r.u) ? 0. : std::abs(r.u));
    if(m < 1e-6) m = 0; // rounding of 0
    if(!std::isinf(r.l)) r.l = m > 0 ? r.l / m : 0;
    if(!std::isinf(r.u)) r.u = m > 0 ? r.u / m : 0;
  }
  return r;
}
inline bool same(const Row & x, const Row & y)
{
  if(x.a.isZero(0) && y.a.isZero(0) && eq(x.l, -y.u) && eq(x.u, -y.l)) return true;
  if(!eq(x.l, y.l) || !eq(x.u, y.u)) return false;
  for(int j = 0; j < x.a.size(); ++j)
    if(!eq(x.a(j), y.a(j))) return false;
  return true;
}
inline std::string str(const Row & r)
{
  std::ostringstream o;
  o << r.l << " <= [" << r.a.transpose() << "] x <= " << r.u;
  return o.str();
}

/** the rows found are the given blocks, one after the other, in some order; returns what is wrong */
inline std::string match(const std::vector<std::vector<Row>> & given, std::vector<Row> found, bool scale)
{
  for(auto & r : found) r = norm(r, scale);
  std::vector<std::vector<Row>> blocks;
  for(auto & b : given)
    if(!b.empty()) blocks.push_back(b);
  for(auto & b : blocks)
    for(auto & r : b) r = norm(r, scale);
  std::stable_sort(blocks.begin(), blocks.end(), [](const auto & x, const auto & y) { return x.size() > y.size(); });
  auto at = [&](const std::vector<Row> & b, size_t s) {
    if(s + b.size() > found.size()) return false;
    for(size_t i = 0; i < b.size(); ++i)
      if(!same(b[i], found[s + i])) return false;
    return true;
  };
  std::vector<bool> used(blocks.size(), false);
  int steps = 0;
  std::function<bool(size_t)> tile = [&](size_t p) {
    while(true)
    {
      if(p == found.size()) return std::find(used.begin(), used.end(), false) == used.end();
      if(++steps > 20000) return true; // undecided
      int only = -1, nb = 0;
      for(size_t i = 0; i < blocks.size(); ++i)
        if(!used[i] && at(blocks[i], p))
        {
          only = int(i);
          ++nb;
        }
      if(nb == 0) return false;
      if(nb > 1) break;
      used[size_t(only)] = true;
      p += blocks[size_t(only)].size();
    }
    for(size_t i = 0; i < blocks.size(); ++i)
      if(!used[i] && at(blocks[i], p))
      {
        auto keep = used;
        used[i] = true;
        if(tile(p + blocks[i].size())) return true;
        used = keep;
      }
    return false;
  };
  if(tile(0)) return "";
  // say which
  auto all = [&]() {
    std::ostringstream o;
    for(auto & r : found) o << " {" << str(r) << "}";
    return o.str();
  };
  std::vector<bool> covered(found.size(), false);
  for(auto & b : blocks)
  {
    bool ok = false;
    for(size_t s = 0; s < found.size(); ++s)
      if(at(b, s))
      {
        ok = true;
        for(size_t i = 0; i < b.size(); ++i) covered[s + i] = true;
      }
    if(!ok)
    {
      std::ostringstream o;
      o << "no block of rows for " << str(b[0]) << " (size " << b.size() << ") among" << all();
      return o.str();
    }
  }
  for(size_t i = 0; i < found.size(); ++i)
    if(!covered[i]) return "a row of no constraint: " + str(found[i]) + " among" + all();
  return "rows that are not those of the constraints, once each:" + all();
}

struct World
{
  std::vector<Var> vars;
  std::vector<int> rootOff; // first unknown of each root
  int n = 0;
  std::vector<std::unique_ptr<T>> tasks;
  std::unique_ptr<LinearizedControlProblem> pb{new LinearizedControlProblem};
  std::ostringstream hist;
  double big = constant::big_number;
  int nextId = 0;
  // substitution of one variable (index in vars), by the constraint of a task
  struct Sub
  {
    T * t;
    int x;
    std::unique_ptr<hint::Substitution> s;
  };
  std::vector<Sub> subs;
  bool rootsOnly = true;

  void makeVars(bool parts)
  {
    rootsOnly = !parts;
    int k = rnd(1, 4);
    for(int i = 0; i < k; ++i)
    {
      int d = rnd(1, 3);
      VariablePtr v = Space(d).createVariable("x" + std::to_string(i));
      rootOff.push_back(n);
      vars.push_back({v, i, 0});
      if(parts && d > 1 && rnd(0, 1))
      {
        int st = rnd(0, d - 1), l = rnd(1, d - st);
        if(l < d) vars.push_back({v->subvariable(l, "p" + std::to_string(i), st), i, st});
      }
      n += d;
    }
  }
  int col(const Var & v, int i) const { return rootOff[size_t(v.root)] + v.start + i; }

  T * makeTask(int maxPrio, bool softIneq, bool allowDiag = true)
  {
    tasks.emplace_back(new T);
    T & t = *tasks.back();
    t.id = nextId++;
    t.diag = allowDiag && rnd(0, 2) == 0;
    t.prio = t.diag ? (rnd(0, 4) ? 0 : rnd(0, maxPrio)) : rnd(0, maxPrio);
    t.type = (t.prio == 0 || softIneq) ? Type(rnd(0, 3)) : Type::EQUAL;
    int m = rnd(1, 3);
    std::vector<int> o;
    for(size_t i = 0; i < vars.size(); ++i) o.push_back(int(i));
    std::shuffle(o.begin(), o.end(), vp::rng());
    for(int i : o)
    {
      if(t.xs.size() && (t.diag || rnd(0, 1))) break;
      bool meet = false;
      for(int j : t.xs) meet = meet || vars[size_t(j)].v->intersects(*vars[size_t(i)].v);
      if(!meet) t.xs.push_back(i);
    }
    if(t.diag) m = vars[size_t(t.xs[0])].v->size();
    std::vector<VariablePtr> xs;
    for(int i : t.xs) xs.push_back(vars[size_t(i)].v);
    std::vector<MatrixConstRef> Ar;
    t.A.reserve(t.xs.size());
    for(auto & x : xs)
    {
      if(t.diag)
      {
        t.A.push_back(MatrixXd::Zero(m, m));
        for(int i = 0; i < m; ++i) t.A.back()(i, i) = nz();
        if(rnd(0, 1)) t.A.back().setIdentity();
      }
      else t.A.push_back(rm(m, x->size()));
      Ar.push_back(t.A.back());
    }
    t.b = rv(m);
    t.f = std::make_shared<function::BasicLinearFunction>(Ar, xs, t.b);
    if(t.diag)
    {
      MatrixProperties p(MatrixProperties::DIAGONAL, MatrixProperties::Invertibility(true));
      if(t.A[0].isIdentity()) p = MatrixProperties(MatrixProperties::IDENTITY);
      t.f->A(t.A[0], *xs[0], p);
    }
    t.rhs = rv(m);
    t.rhs2 = t.rhs + rv(m).cwiseAbs();
    SolvingRequirements req;
    t.w = 1;
    if(rnd(0, 1))
    {
      t.w = rnd(1, 8) / 2.;
      req.weight() = Weight(t.w);
    }
    t.hasAw = rnd(0, 3) == 0;
    if(t.hasAw)
    {
      t.aw = rv(m).cwiseAbs().array() + 0.25;
      req.anisotropicWeight() = AnisotropicWeight(t.aw);
    }
    req.priorityLevel() = PriorityLevel(t.prio);
    task_dynamics::None none;
    if(t.type == Type::DOUBLE_SIDED) t.tr = std::make_shared<TaskWithRequirements>(Task(t.f, t.type, none, t.rhs, t.rhs2), req);
    else t.tr = std::make_shared<TaskWithRequirements>(Task(t.f, t.type, none, t.rhs), req);
    return &t;
  }
  void add(T & t)
  {
    hist << " +" << t.str();
    pb->add(t.tr);
    t.in = true;
  }
  void remove(T & t)
  {
    hist << " -T" << t.id;
    pb->remove(*t.tr);
    t.in = false;
  }
  void newData(T & t)
  {
    hist << " b(T" << t.id << ")";
    t.b = rv(int(t.b.size()));
    t.f->b(t.b);
  }
  void weight(T & t)
  {
    t.w = rnd(1, 8) / 2.;
    hist << " w(T" << t.id << ")=" << t.w;
    t.tr->requirements.weight() = Weight(t.w);
  }
  void aweight(T & t)
  {
    hist << " aw(T" << t.id << ")";
    t.aw = rv(int(t.b.size())).cwiseAbs().array() + 0.25;
    t.hasAw = true;
    t.tr->requirements.anisotropicWeight() = AnisotropicWeight(t.aw);
  }
  /** make t the definition of one of its variables, if it can be */
  bool substitute(T & t)
  {
    if(t.type != Type::EQUAL || t.prio != 0 || !t.in || !rootsOnly) return false;
    for(size_t k = 0; k < t.xs.size(); ++k)
    {
      int x = t.xs[k];
      if(vars[size_t(x)].v->size() != t.b.size()) continue;
      if(t.A[k].fullPivLu().rank() < t.b.size() || !(t.A[k].fullPivLu().rcond() > 1e-2)) continue;
      bool clash = false;
      for(auto & s : subs)
      {
        clash = clash || s.t == &t || s.x == x;
        for(int y : s.t->xs) clash = clash || y == x;
        for(int y : t.xs) clash = clash || y == s.x;
      }
      if(clash) continue;
      Sub s{&t, x, nullptr};
      s.s.reset(new hint::Substitution(pb->constraint(*t.tr), vars[size_t(x)].v));
      hist << " subst(x" << x << " by T" << t.id << ")";
      pb->add(*s.s);
      subs.push_back(std::move(s));
      return true;
    }
    return false;
  }
  void unsubstitute(size_t i)
  {
    hist << " unsubst(x" << subs[i].x << ")";
    pb->remove(*subs[i].s);
    subs.erase(subs.begin() + long(i));
  }

  double rowWeight(const T & t, int i) const { return t.w * (t.hasAw ? t.aw(i) : 1.); }

  /** the rows of a task over all unknowns, the substituted ones being replaced */
  std::vector<Row> rows(const T & t) const
  {
    int m = int(t.b.size());
    MatrixXd A = MatrixXd::Zero(m, n);
    for(size_t k = 0; k < t.xs.size(); ++k)
    {
      const Var & v = vars[size_t(t.xs[k])];
      for(int j = 0; j < v.v->size(); ++j) A.col(col(v, j)) += t.A[k].col(j);
    }
    VectorXd b = t.b;
    for(auto & s : subs)
    {
      const Var & v = vars[size_t(s.x)];
      int d = v.v->size();
      MatrixXd Ax = A.middleCols(col(v, 0), d);
      if(Ax.isZero(0)) continue;
      // x = Sx^-1 (rhs - b - rest)
      MatrixXd S = MatrixXd::Zero(d, n), Sx;
      for(size_t k = 0; k < s.t->xs.size(); ++k)
      {
        const Var & y = vars[size_t(s.t->xs[k])];
        if(s.t->xs[k] == s.x) Sx = s.t->A[k];
        else
          for(int j = 0; j < y.v->size(); ++j) S.col(col(y, j)) += s.t->A[k].col(j);
      }
      Eigen::FullPivLU<MatrixXd> lu(Sx);
      A.middleCols(col(v, 0), d).setZero();
      A -= Ax * lu.solve(S);
      b += Ax * VectorXd(lu.solve(VectorXd(s.t->rhs - s.t->b)));
    }
    std::vector<Row> r;
    for(int i = 0; i < m; ++i)
    {
      Row q{VectorXd(A.row(i).transpose()), -INF, INF};
      for(int j = 0; j < n; ++j)
        if(std::abs(q.a(j)) < 1e-9) q.a(j) = 0;
      double v = t.rhs(i) - b(i);
      switch(t.type)
      {
        case Type::EQUAL: q.l = q.u = v; break;
        case Type::GREATER_THAN: q.l = v; break;
        case Type::LOWER_THAN: q.u = v; break;
        case Type::DOUBLE_SIDED: q.l = v; q.u = t.rhs2(i) - b(i); break;
      }
      r.push_back(q);
    }
    return r;
  }

  bool isSubst(const T & t) const
  {
    for(auto & s : subs)
      if(s.t == &t) return true;
    return false;
  }

  /** twice: two-sided constraints are written as two one-sided ones */
  Expected expected(bool twice, bool hier, bool splitTwoSided = true) const
  {
    (void)splitTwoSided;
    Expected e;
    e.n = n;
    e.lo = VectorXd::Constant(n, -INF);
    e.up = VectorXd::Constant(n, INF);
    e.Q = MatrixXd::Zero(n, n);
    e.c = VectorXd::Zero(n);
    e.used.assign(size_t(n), false);
    int count = 0;
    for(auto & tp : tasks)
    {
      const T & t = *tp;
      if(!t.in) continue;
      if(isSubst(t)) continue;
      ++count;
      auto rs = rows(t);
      // the unknowns: those of the variables, the substituted ones being replaced by those of their definition
      for(int k : t.xs)
      {
        bool s = false;
        for(auto & sb : subs)
          if(sb.x == k)
          {
            s = true;
            for(int y : sb.t->xs)
              if(y != k)
                for(int j = 0; j < vars[size_t(y)].v->size(); ++j) e.used[size_t(col(vars[size_t(y)], j))] = true;
          }
        if(!s)
          for(int j = 0; j < vars[size_t(k)].v->size(); ++j) e.used[size_t(col(vars[size_t(k)], j))] = true;
      }
      if(t.prio == 0)
      {
        std::vector<Row> multi, multi2;
        bool any = false;
        for(auto & r : rs)
          if(single(r) < 0) any = true;
        for(auto & r : rs)
        {
          if(!any)
          {
            Row q = norm(r, true);
            int j = single(r);
            e.lo(j) = std::max(e.lo(j), q.l);
            e.up(j) = std::min(e.up(j), q.u);
          }
          else if(twice && t.type == Type::DOUBLE_SIDED)
          {
            multi.push_back({r.a, r.l, INF});
            multi2.push_back({r.a, -INF, r.u});
          }
          else multi.push_back(r);
        }
        if(multi.size()) e.blocks.push_back(multi);
        if(multi2.size()) e.blocks.push_back(multi2);
      }
      else if(!hier)
      {
        for(size_t i = 0; i < rs.size(); ++i)
        {
          double w = rowWeight(t, int(i));
          e.Q += w * rs[i].a * rs[i].a.transpose();
          e.c -= w * rs[i].l * rs[i].a;
        }
        e.nObj += int(rs.size());
      }
      else
      {
        if(int(e.levels.size()) < t.prio) e.levels.resize(size_t(t.prio));
        for(size_t i = 0; i < rs.size(); ++i)
        {
          double w = std::sqrt(rowWeight(t, int(i)));
          rs[i].a *= w;
          rs[i].l *= w;
          rs[i].u *= w;
        }
        e.levels[size_t(t.prio - 1)].push_back(rs);
      }
    }
    e.empty = count == 0;
    return e;
  }

  std::string context() const
  {
    std::ostringstream o;
    o << "vars";
    for(size_t i = 0; i < vars.size(); ++i) o << " x" << i << "[" << vars[i].v->size() << "]" << (vars[i].v->size() != vars[size_t(i)].v->superVariable()->size() ? "part" : "");
    o << hist.str();
    return o.str();
  }
};

/** what the back end received, over all unknowns */
struct Got
{
  std::string bad;
  std::vector<Row> rows;
  VectorXd lo, up;
  MatrixXd Q;
  VectorXd c;
  bool hasObjective = false;
  std::vector<std::vector<Row>> levels;
};

inline Got read(const World & w, const VariableVector & x, const vpbackend::Problem & p)
{
  Got g;
  int n = w.n, m = x.totalSize();
  std::vector<int> at(size_t(m), -1); // column -> unknown
  for(size_t i = 0; i < w.vars.size(); ++i)
  {
    const Var & v = w.vars[i];
    if(v.start != 0 || v.v->size() != v.v->superVariable()->size()) continue;
    for(const auto & y : x.variables())
      if(v.v->intersects(*y))
      {
        Range r = y->getMappingIn(x);
        int off = y->subvariableRange().start;
        for(int j = 0; j < r.dim; ++j) at[size_t(r.start + j)] = w.rootOff[size_t(v.root)] + off + j;
      }
  }
  for(int a : at)
    if(a < 0) { g.bad = "a column of no variable"; return g; }
  if(p.solver == "bad") { g.bad = "data of the wrong size"; return g; }
  if(p.dims[0] != m) { g.bad = "announced number of unknowns"; return g; }
  auto widen = [&](const MatrixXd & A, const VectorXd & l, const VectorXd & u, std::vector<Row> & out) {
    if(A.cols() != m || A.rows() != l.size() || A.rows() != u.size()) { g.bad = "sizes of the constraints"; return; }
    for(int i = 0; i < A.rows(); ++i)
    {
      Row r{VectorXd::Zero(n), clip(l(i), w.big), clip(u(i), w.big)};
      for(int j = 0; j < m; ++j) r.a(at[size_t(j)]) += std::abs(A(i, j)) < 1e-9 ? 0 : A(i, j);
      out.push_back(r);
    }
  };
  g.lo = VectorXd::Constant(n, -INF);
  g.up = VectorXd::Constant(n, INF);
  if(p.hasBounds)
  {
    if(p.xl.size() != m || p.xu.size() != m) { g.bad = "sizes of the bounds"; return g; }
    for(int j = 0; j < m; ++j)
    {
      g.lo(at[size_t(j)]) = clip(p.xl(j), w.big);
      g.up(at[size_t(j)]) = clip(p.xu(j), w.big);
    }
  }
  MatrixXd A = p.A;
  VectorXd l = p.l, u = p.u;
  if(p.levels.empty() && (p.A.rows() || p.solver != "lexls")) widen(A, l, u, g.rows);
  g.Q = MatrixXd::Zero(n, n);
  g.c = VectorXd::Zero(n);
  g.hasObjective = p.hasObjective;
  if(p.hasObjective)
  {
    if(p.Q.rows() != m || p.Q.cols() != m || p.c.size() != m) { g.bad = "sizes of the objective"; return g; }
    for(int i = 0; i < m; ++i)
    {
      g.c(at[size_t(i)]) += p.c(i);
      for(int j = 0; j < m; ++j) g.Q(at[size_t(i)], at[size_t(j)]) += p.Q(i, j);
    }
  }
  for(auto & lv : p.levels)
  {
    g.levels.emplace_back();
    widen(lv.A, lv.l, lv.u, g.levels.back());
  }
  return g;
}

/** rows with one unknown say a bound: blocks made only of these are taken as bounds */
inline void takeBounds(std::vector<Row> & rows, VectorXd & lo, VectorXd & up)
{
  std::vector<Row> keep;
  for(auto & r : rows)
  {
    int j = single(r);
    if(j < 0) { keep.push_back(r); continue; }
    Row q = norm(r, true);
    lo(j) = std::max(lo(j), q.l);
    up(j) = std::min(up(j), q.u);
  }
  rows = keep;
}

inline std::string compareBounds(const Expected & e, const VectorXd & lo, const VectorXd & up)
{
  for(int j = 0; j < e.n; ++j)
    if(!eq(e.lo(j), lo(j)) || !eq(e.up(j), up(j)))
    {
      std::ostringstream o;
      o << "bounds on unknown " << j << ": [" << lo(j) << ", " << up(j) << "] instead of [" << e.lo(j) << ", " << e.up(j) << "]";
      return o.str();
    }
  return "";
}

/** expected blocks in which some rows have one unknown: these rows are bounds too */
inline void splitExpected(Expected & e)
{
  std::vector<std::vector<Row>> bl;
  for(auto & b : e.blocks)
  {
    takeBounds(b, e.lo, e.up);
    if(b.size()) bl.push_back(b);
  }
  e.blocks = bl;
}

enum Back { QLD, QLDC, LSSOL, QUAD, QUADC, LEXLS, NBACK };
inline const char * backName(int b)
{
  const char * t[] = {"qld", "qld(cholesky)", "lssol", "quadprog", "quadprog(cholesky)", "lexls"};
  return t[b];
}
const double DAMP = 1. / 64;
inline scheme::WeightedLeastSquares makeScheme(int b, bool autoDamping = false)
{
  scheme::WeightedLeastSquaresOptions o;
  o.autoDamping(autoDamping);
  using namespace tvm::solver;
  switch(b)
  {
    case QLD: return scheme::WeightedLeastSquares(QLDLSSolverOptions{}, o);
    case QLDC: return scheme::WeightedLeastSquares(QLDLSSolverOptions{}.cholesky(true).choleskyDamping(DAMP), o);
    case LSSOL: return scheme::WeightedLeastSquares(LSSOLLSSolverOptions{}, o);
    case QUAD: return scheme::WeightedLeastSquares(QuadprogLSSolverOptions{}.damping(DAMP * DAMP), o);
    case QUADC: return scheme::WeightedLeastSquares(QuadprogLSSolverOptions{}.cholesky(true).choleskyDamping(DAMP), o);
    default: return scheme::WeightedLeastSquares(LexLSLSSolverOptions{}, o);
  }
}
inline bool twice(int b) { return b == QLD || b == QLDC || b == QUAD || b == QUADC; }

/** compare what a weighted least-squares scheme sent to its back end with what it should have; "" when right.
 * scale: the objective is known up to a common positive factor (priorities are relative) */
inline std::string compare(const World & w, const VariableVector & x, int back, bool minNorm = false)
{
  const auto & p = vpbackend::last();
  Expected e = w.expected(twice(back), false);
  splitExpected(e);
  // variables
  std::vector<bool> has(size_t(w.n), false);
  for(size_t i = 0; i < w.vars.size(); ++i)
    for(const auto & y : x.variables())
      if(w.vars[i].start == 0 && w.vars[i].v->size() == w.vars[i].v->superVariable()->size() && w.vars[i].v->intersects(*y))
        for(int j = 0; j < y->size(); ++j) has[size_t(w.rootOff[size_t(w.vars[i].root)] + y->subvariableRange().start + j)] = true;
  for(int j = 0; j < w.n; ++j)
    if(has[size_t(j)] != e.used[size_t(j)])
    {
      std::ostringstream o;
      o << "unknown " << j << (has[size_t(j)] ? " is in the problem but in no task" : " of a task is not in the problem");
      return o.str();
    }
  Got g = read(w, x, p);
  if(!g.bad.empty()) return g.bad;
  if(back == LEXLS)
  {
    if(g.levels.size() != 2) return "number of levels";
    g.rows = g.levels[0];
    g.Q = MatrixXd::Zero(w.n, w.n);
    g.c = VectorXd::Zero(w.n);
    for(auto & r : g.levels[1])
    {
      if(!eq(r.l, r.u)) return "an objective is not an equality: " + str(r);
      g.Q += r.a * r.a.transpose();
      g.c -= r.l * r.a;
    }
    g.hasObjective = true;
  }
  takeBounds(g.rows, g.lo, g.up);
  std::string s = compareBounds(e, g.lo, g.up);
  if(!s.empty()) return s;
  s = match(e.blocks, g.rows, false);
  if(!s.empty()) return s;
  int m = x.totalSize();
  MatrixXd I = MatrixXd::Zero(w.n, w.n);
  for(int j = 0; j < w.n; ++j)
    if(e.used[size_t(j)]) I(j, j) = 1;
  if(minNorm)
  {
    if(m == 0) return "";
    if(!g.hasObjective) return "no minimum norm objective";
    double d = g.Q.norm() / I.norm();
    if(d <= 0 || !(g.Q - d * I).isZero(1e-9) || !g.c.isZero(1e-9)) return "the objective is not the norm of x";
    return "";
  }
  if(!g.hasObjective)
  {
    if(e.nObj) return "the objective is not given to the solver";
    return "";
  }
  MatrixXd D = MatrixXd::Zero(w.n, w.n);
  if((back == QLDC || back == QUADC) && e.nObj < m) D = DAMP * DAMP * I;
  if(back == QUAD) D = DAMP * DAMP * I;
  MatrixXd Q = g.Q - D;
  // a singular objective has no Cholesky factor
  if(back == QUADC && e.nObj >= m && e.Q.fullPivLu().rank() < m) return "";
  // a common factor: 1, or the power of the scalarization weight for problems started without objective
  for(double f : {1., 1e-6})
    if((Q - f * e.Q).norm() <= 1e-9 * (1 + e.Q.norm() * f) && (g.c - f * e.c).norm() <= 1e-9 * (1 + e.c.norm() * f)
       && (f == 1 || e.Q.norm() > 1e-12) && ((Q - f * e.Q).norm() <= 1e-6 * f * e.Q.norm() || e.Q.norm() == 0))
      return "";
  std::ostringstream o;
  o << "objective: Q = " << Q << " c = " << g.c.transpose() << " instead of " << e.Q << " and " << e.c.transpose();
  return o.str();
}
template<class Scheme>
inline const VariableVector & variablesOf(const LinearizedControlProblem & pb, const Scheme & s)
{ return pb.computationData_.at(s.id())->variables(); }

} // namespace qp
