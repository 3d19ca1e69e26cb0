// C20: rows of the solvers. The schemes and the solver wrappers of the repository run with recording back ends; what these
// receive is compared with an independent account of the problem after every change.
#include "qp.h"
using namespace qp;

static void step(World & w, int maxTasks, bool subst)
{
  std::vector<T *> in, out;
  for(auto & t : w.tasks) (t->in ? in : out).push_back(t.get());
  auto pick = [](std::vector<T *> & v) { return v[size_t(rnd(0, int(v.size()) - 1))]; };
  switch(rnd(0, 7))
  {
    case 0:
    case 1:
    case 2:
      if(int(in.size()) < maxTasks)
      {
        if(out.size() && rnd(0, 2) == 0) w.add(*pick(out));
        else w.add(*w.makeTask(1, false));
      }
      break;
    case 3:
    case 4:
      if(in.size())
      {
        T * t = pick(in);
        if(!w.isSubst(*t)) w.remove(*t);
      }
      break;
    case 5:
      if(in.size())
      {
        T * t = pick(in);
        if(t->prio > 0) w.weight(*t);
      }
      break;
    case 6:
      if(in.size())
      {
        T * t = pick(in);
        if(t->prio > 0) w.aweight(*t);
      }
      break;
    case 7:
      if(subst && w.subs.size() && rnd(0, 1)) w.unsubstitute(size_t(rnd(0, int(w.subs.size()) - 1)));
      else if(subst && in.size()) w.substitute(*pick(in));
      else if(in.size()) w.newData(*pick(in));
      break;
  }
}

static void history(bool parts, bool subst, bool damping = false)
{
  World w;
  w.makeVars(parts);
  int back = rnd(0, NBACK - 1);
  auto s = makeScheme(back, damping);
  w.hist << " [" << backName(back) << (damping ? ", damped" : "") << "]";
  int k = rnd(1, 5);
  for(int i = 0; i < k; ++i) w.add(*w.makeTask(damping && rnd(0, 3) ? 0 : 1, false));
  int rounds = rnd(1, 5);
  for(int r = 0; r < rounds; ++r)
  {
    w.hist << " solve";
    vp::context() = w.context();
    auto e = w.expected(false, false);
    int calls = vpbackend::last().calls;
    try
    {
      s.solve(*w.pb);
    }
    catch(std::exception & x)
    {
      vp::fail("a problem that can be solved is not refused", w.context() + " : " + x.what());
      return;
    }
    if(!e.empty)
    {
      EXPECT_VP(vpbackend::last().calls == calls + 1, "the back end is called", w.context());
      std::string m = compare(w, variablesOf(*w.pb, s), back, damping && e.nObj == 0);
      ++vp::explored();
      if(!m.empty())
      {
        vp::fail(r == 0 ? "the assembled problem is the one described" : "after changes, the assembled problem is the one described", w.context() + " : " + m);
        return;
      }
    }
    int c = rnd(1, 5);
    for(int i = 0; i < c; ++i) step(w, 7, subst);
  }
}

SECTION("histories", 4)
{
  vp::clause() = "rows of the solvers";
  while(vp::more()) history(false, false);
}
SECTION("histories with substitutions", 2)
{
  while(vp::more()) history(false, true);
}
SECTION("histories with automatic damping", 2)
{
  while(vp::more()) history(false, rnd(0, 1), true);
}
SECTION("histories with parts of variables", 2)
{
  while(vp::more()) history(true, false);
}

// hierarchical scheme: the problem is built from scratch, or rebuilt because of substitutions; other changes are refused
static void hierarchy()
{
  World w;
  w.makeVars(rnd(0, 3) == 0);
  bool ffl = rnd(0, 1), damp = rnd(0, 1);
  scheme::HierarchicalLeastSquaresOptions o;
  o.autoDamping(damp);
  scheme::HierarchicalLeastSquares s(solver::LexLSHLSSolverOptions{}.feasibleFirstLevel(ffl).warmStart(rnd(0, 1)), o);
  w.hist << " [hierarchical" << (ffl ? ", feasible" : "") << (damp ? ", damped" : "") << "]";
  int k = rnd(1, 6), mp = rnd(0, 3);
  for(int i = 0; i < k; ++i) w.add(*w.makeTask(mp, true));
  for(int r = 0; r < 3; ++r)
  {
    w.hist << " solve";
    vp::context() = w.context();
    Expected e = w.expected(false, true);
    splitExpected(e);
    if(e.empty) return;
    try
    {
      s.solve(*w.pb);
    }
    catch(std::exception & x)
    {
      vp::fail("a problem that can be solved is not refused", w.context() + " : " + x.what());
      return;
    }
    const VariableVector & x = variablesOf(*w.pb, s);
    Got g = read(w, x, vpbackend::last());
    ++vp::explored();
    std::string m = g.bad;
    if(m.empty())
    {
      // levels announced: constraints, then objectives by priority, then the damping
      auto lv = g.levels;
      if(damp)
      {
        if(lv.empty() || int(lv.back().size()) != x.totalSize()) m = "no damping level";
        else
        {
          for(auto & q : lv.back())
            if(single(q) < 0 || q.l != 0 || q.u != 0) m = "the damping level is not x = 0: " + str(q);
          lv.pop_back();
        }
      }
      if(m.empty())
      {
        if(lv.empty()) lv.push_back({});
        // the first level may be weighted, which changes nothing to it
        takeBounds(lv[0], g.lo, g.up);
        m = compareBounds(e, g.lo, g.up);
        if(m.empty()) m = match(e.blocks, lv[0], true);
        for(size_t i = 1; i < lv.size() && m.empty(); ++i) m = match(i - 1 < e.levels.size() ? e.levels[i - 1] : std::vector<std::vector<Row>>(), lv[i], false);
        if(m.empty() && e.levels.size() + 1 > lv.size()) m = "a level is missing";
      }
    }
    if(!m.empty())
    {
      vp::fail("the assembled hierarchical problem is the one described", w.context() + " : " + m);
      return;
    }
    // changes followed by a rebuild
    bool changed = false;
    for(auto & t : w.tasks)
      if(t->in && !changed) changed = w.substitute(*t);
    if(!changed && w.subs.size())
    {
      w.unsubstitute(0);
      changed = true;
    }
    int c = rnd(0, 2);
    for(int i = 0; i < c && changed; ++i)
    {
      T & t = *w.tasks[size_t(rnd(0, int(w.tasks.size()) - 1))];
      if(t.in && !w.isSubst(t) && rnd(0, 1)) w.remove(t);
      else if(rnd(0, 1)) w.add(*w.makeTask(mp, true));
    }
    for(auto & t : w.tasks)
      if(rnd(0, 3) == 0) w.newData(*t);
  }
}
SECTION("hierarchical scheme", 2)
{
  while(vp::more()) hierarchy();
}

// the interface of the solvers, used directly: the same solver built again and again
static std::unique_ptr<solver::abstract::LeastSquareSolver> makeSolver(int b)
{
  using namespace tvm::solver;
  switch(b)
  {
    case QLD: return QLDLSSolverFactory(QLDLSSolverOptions{}).createSolver();
    case QLDC: return QLDLSSolverFactory(QLDLSSolverOptions{}.cholesky(true).choleskyDamping(DAMP)).createSolver();
    case LSSOL: return LSSOLLSSolverFactory(LSSOLLSSolverOptions{}).createSolver();
    case QUAD: return QuadprogLSSolverFactory(QuadprogLSSolverOptions{}.damping(DAMP * DAMP)).createSolver();
    case QUADC: return QuadprogLSSolverFactory(QuadprogLSSolverOptions{}.cholesky(true).choleskyDamping(DAMP)).createSolver();
    default: return LexLSLSSolverFactory(LexLSLSSolverOptions{}).createSolver();
  }
}
static void rebuild()
{
  int back = rnd(0, NBACK - 1);
  auto s = makeSolver(back);
  auto hs = solver::LexLSHLSSolverFactory(solver::LexLSHLSSolverOptions{}.feasibleFirstLevel(rnd(0, 1))).createSolver();
  scheme::internal::Assignment::big_ = constant::big_number;
  World w;
  w.makeVars(false);
  w.hist << " [direct, " << backName(back) << "]";
  bool minNorm = false;
  for(int r = 0; r < 3; ++r)
  {
    for(auto & t : w.tasks)
      if(t->in && rnd(0, 1)) w.remove(*t);
    int k = rnd(1, 4);
    for(int i = 0; i < k; ++i) w.add(*w.makeTask(1, false));
    minNorm = rnd(0, 4) == 0;
    if(minNorm)
      for(auto & t : w.tasks)
        if(t->in && t->prio) w.remove(*t);
    bool useBounds = rnd(0, 1), some = false;
    VariableVector x;
    int nEq = 0, nIneq = 0, nObj = 0;
    std::vector<T *> order;
    for(auto & t : w.tasks)
      if(t->in)
      {
        some = true;
        order.push_back(t.get());
        auto c = w.pb->constraint(*t->tr);
        for(auto & v : c->variables())
          if(!x.contains(*v)) x.add(v);
      }
    if(!some) return;
    w.pb->update();
    std::shuffle(order.begin(), order.end(), vp::rng());
    for(T * t : order)
    {
      auto c = w.pb->constraint(*t->tr);
      int z = int(t->b.size()) * (t->type == Type::DOUBLE_SIDED && twice(back) ? 2 : 1);
      EXPECT_VP(s->constraintSize(*c) == z, "number of rows of a constraint", w.context() << t->str());
      if(t->prio) nObj += int(t->b.size());
      else if(t->diag && useBounds) continue;
      else if(t->type == Type::EQUAL) nEq += z;
      else nIneq += z;
    }
    int full = x.totalSize();
    w.hist << (minNorm ? " build min norm" : " build");
    vp::context() = w.context();
    s->startBuild(x, minNorm ? full : nObj, nEq, nIneq, useBounds);
    if(minNorm) s->setMinimumNorm();
    for(T * t : order)
    {
      auto c = w.pb->constraint(*t->tr);
      if(t->prio) s->addObjective(c, std::shared_ptr<SolvingRequirementsWithCallbacks>(t->tr, &t->tr->requirements), 1);
      else if(t->diag && useBounds) s->addBound(c);
      else s->addConstraint(c);
    }
    s->finalizeBuild();
    s->solve();
    ++vp::explored();
    std::string m = compare(w, x, back, minNorm);
    if(!m.empty()) vp::fail("a solver built again has the rows of its last problem only", w.context() + " : " + m);
    // the same on a hierarchical solver, with two levels
    std::vector<int> hEq(2, 0), hIneq(2, 0);
    for(T * t : order)
      if(t->prio || !(t->diag && useBounds)) (t->type == Type::EQUAL ? hEq : hIneq)[size_t(t->prio)] += int(t->b.size());
    hs->startBuild(x, hEq, hIneq, useBounds);
    for(T * t : order)
    {
      auto c = w.pb->constraint(*t->tr);
      std::shared_ptr<SolvingRequirementsWithCallbacks> req(t->tr, &t->tr->requirements);
      if(t->prio == 0 && t->diag && useBounds) hs->addBound(c);
      else hs->addConstraint(c, req);
    }
    hs->finalizeBuild();
    hs->solve();
    Got g = read(w, x, vpbackend::last());
    Expected e = w.expected(false, true);
    splitExpected(e);
    m = g.bad;
    if(m.empty() && g.levels.size() != 2) m = "number of levels";
    if(m.empty())
    {
      takeBounds(g.levels[0], g.lo, g.up);
      m = compareBounds(e, g.lo, g.up);
      if(m.empty()) m = match(e.blocks, g.levels[0], true);
      if(m.empty()) m = match(e.levels.size() ? e.levels[0] : std::vector<std::vector<Row>>(), g.levels[1], false);
    }
    if(!m.empty()) vp::fail("a hierarchical solver built again has the rows of its last problem only", w.context() + " : " + m);
  }
}
SECTION("solvers built several times", 1)
{
  while(vp::more()) rebuild();
}
