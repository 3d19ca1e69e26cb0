// C18: coalescing of the pending changes of a problem. Queues of events and lists of solver changes are replayed against
// the changes made one by one; schemes resolving at different times are compared with one another and with what the
// problem is.
#include "qp.h"
#include <set>
#include <tvm/scheme/internal/ProblemComputationData.h>
#include <tvm/solver/internal/SolverEvents.h>
using namespace qp;
using Event = scheme::internal::ProblemDefinitionEvent;
using EventType = Event::Type;

// ---- events of a problem, as received by a computation data
struct Data : scheme::internal::ProblemComputationData
{
  Data(int id) : ProblemComputationData(id) {}
  void setVariablesToSolution_(tvm::internal::VariableCountingVector &) override {}
};
struct Follower
{
  Data * data;
  std::set<const void *> known;            // what the follower has after its last resolution
  std::set<const void *> weight, aweight;  // changed since, on tasks it has
};
static void queue()
{
  VariablePtr v = Space(2).createVariable("x");
  ControlProblem cp;
  LinearizedControlProblem lp;
  bool lin = rnd(0, 1);
  ControlProblem & pb = lin ? static_cast<ControlProblem &>(lp) : cp;
  std::vector<TaskWithRequirementsPtr> ts;
  auto make = [&]() {
    auto f = std::make_shared<function::BasicLinearFunction>(rm(2, 2), v, rv(2));
    SolvingRequirements req;
    req.priorityLevel() = PriorityLevel(1);
    return std::make_shared<TaskWithRequirements>(Task(f, Type::EQUAL, task_dynamics::None()), req);
  };
  int k = rnd(1, 4);
  for(int i = 0; i < k; ++i) ts.push_back(make());
  std::set<const void *> in;
  std::vector<Follower> fs;
  std::ostringstream hist;
  hist << "queue" << (lin ? " (linearized)" : "");
  auto addTo = [&](const TaskWithRequirementsPtr & t) {
    if(lin) lp.add(t);
    else cp.add(t);
    in.insert(t.get());
  };
  auto removeFrom = [&](const TaskWithRequirementsPtr & t) {
    if(lin) lp.remove(*t);
    else cp.remove(*t);
    in.erase(t.get());
    for(auto & f : fs)
    {
      f.weight.erase(t.get());
      f.aweight.erase(t.get());
    }
  };
  auto nb = [&](const void * p) {
    for(size_t i = 0; i < ts.size(); ++i)
      if(ts[i].get() == p) return int(i);
    return -1;
  };
  auto check = [&](Follower & f) {
    hist << " read";
    vp::context() = hist.str();
    // replay
    std::set<const void *> s = f.known, w, a;
    std::map<const void *, int> nadd, nrem;
    std::ostringstream q;
    std::string bad;
    for(const auto & e : f.data->events())
    {
      const void * p = e.emitter();
      q << " " << (e.type() == EventType::TaskAddition ? "+" : e.type() == EventType::TaskRemoval ? "-" : e.type() == EventType::WeightChange ? "w" : "a") << nb(p);
      switch(e.type())
      {
        case EventType::TaskAddition:
          if(!s.insert(p).second) bad = "a task is added that is already there";
          ++nadd[p];
          break;
        case EventType::TaskRemoval:
          if(!s.erase(p)) bad = "a task is removed that is not there";
          w.erase(p);
          a.erase(p);
          ++nrem[p];
          break;
        case EventType::WeightChange:
          if(!s.count(p)) bad = "the weight changes for a task that is not there";
          w.insert(p);
          break;
        case EventType::AnisotropicWeightChange:
          if(!s.count(p)) bad = "the weight changes for a task that is not there";
          a.insert(p);
          break;
        default: bad = "an event that is not one of the changes";
      }
    }
    std::string c = hist.str() + " : events" + q.str();
    EXPECT_VP(bad.empty(), "the pending changes can be applied in order", c + " : " + bad);
    EXPECT_VP(s == in, "the pending changes lead to the tasks of the problem", c);
    for(auto & n : nadd)
      EXPECT_VP(in.count(n.first) && n.second == 1, "a task added and removed in between leaves no trace", c);
    for(auto & n : nrem)
      EXPECT_VP(f.known.count(n.first) && n.second == 1, "a task is removed once", c);
    for(auto p : f.weight)
      EXPECT_VP(w.count(p) || nadd.count(p), "weight changes on remaining tasks are delivered", c);
    for(auto p : f.aweight)
      EXPECT_VP(a.count(p) || nadd.count(p), "anisotropic weight changes on remaining tasks are delivered", c);
    for(auto p : w)
      EXPECT_VP(f.weight.count(p) || nadd.count(p), "no weight change is invented", c);
    for(auto p : a)
      EXPECT_VP(f.aweight.count(p) || nadd.count(p), "no anisotropic weight change is invented", c);
    if(rnd(0, 1)) f.data->clearEvents();
    else
    {
      // read one by one, in order
      auto l = f.data->events();
      for(auto & e : l)
      {
        EXPECT_VP(f.data->hasEvents(), "events are read one by one", c);
        auto r = f.data->popEvent();
        EXPECT_VP(r.type() == e.type() && r.emitter() == e.emitter(), "events are read in order", c);
      }
    }
    EXPECT_VP(!f.data->hasEvents() && f.data->events().empty(), "no event remains", c);
    f.known = in;
    f.weight.clear();
    f.aweight.clear();
    ++vp::explored();
  };
  int steps = rnd(1, 24);
  for(int i = 0; i < steps; ++i)
  {
    auto & t = ts[size_t(rnd(0, int(ts.size()) - 1))];
    switch(rnd(0, 8))
    {
      case 0:
      case 1:
        if(!in.count(t.get()))
        {
          hist << " +" << nb(t.get());
          addTo(t);
        }
        break;
      case 2:
        hist << " -" << nb(t.get());
        removeFrom(t); // does nothing when it is not in
        break;
      case 3:
        hist << " w" << nb(t.get());
        t->requirements.weight() = Weight(rnd(1, 9));
        if(in.count(t.get()))
          for(auto & f : fs) f.weight.insert(t.get());
        break;
      case 4:
        hist << " a" << nb(t.get());
        t->requirements.anisotropicWeight() = AnisotropicWeight(VectorXd(rv(2).cwiseAbs().array() + 1));
        if(in.count(t.get()))
          for(auto & f : fs) f.aweight.insert(t.get());
        break;
      case 5:
        if(fs.size() < 3)
        {
          hist << " new";
          int id = int(fs.size());
          auto d = std::make_unique<Data>(id);
          fs.push_back({d.get(), in, {}, {}});
          pb.computationData_[id] = std::move(d);
        }
        break;
      case 6:
        // a task that dies as it is removed, and another that may take its place in memory
        if(in.count(t.get()))
        {
          hist << " -" << nb(t.get()) << " dies";
          removeFrom(t);
          t.reset();
          t = make();
        }
        break;
      default:
        if(fs.size()) check(fs[size_t(rnd(0, int(fs.size()) - 1))]);
    }
    EXPECT_VP(pb.size() == int(in.size()) && int(pb.tasks().size()) == int(in.size()), "the tasks of the problem", hist.str());
    if(lin)
    {
      EXPECT_VP(lp.constraints().size() == in.size() && lp.constraintMap().size() == in.size(), "one constraint per task", hist.str());
      for(auto & u : ts)
        EXPECT_VP(bool(lp.constraintNoThrow(*u)) == bool(in.count(u.get())) && lp.constraintWithRequirementsNoThrow(*u).has_value() == bool(in.count(u.get())),
                  "the constraint of a task is there exactly when the task is", hist.str());
    }
  }
  for(auto & f : fs) check(f);
}
SECTION("queue of events", 2)
{
  while(vp::more()) queue();
}

// ---- changes given to a solver
static void lists()
{
  VariablePtr v = Space(1).createVariable("x");
  using C = constraint::BasicLinearConstraint;
  std::vector<LinearConstraintPtr> cs;
  std::vector<VariablePtr> vs;
  for(int i = 0; i < 4; ++i)
  {
    cs.push_back(std::make_shared<C>(MatrixXd(MatrixXd::Identity(1, 1)), v, Type::EQUAL));
    vs.push_back(Space(1).createVariable("y" + std::to_string(i)));
  }
  auto req = std::make_shared<SolvingRequirementsWithCallbacks>(PriorityLevel(1));
  solver::internal::SolverEvents se;
  std::set<const void *> c0, b0, o0, v0, c, b, o, x; // initial and current sets
  std::map<const void *, int> w;
  bool hidden = false;
  for(int i = 0; i < 4; ++i)
  {
    if(rnd(0, 1)) c0.insert(cs[size_t(i)].get());
    else if(rnd(0, 1)) b0.insert(cs[size_t(i)].get());
    else if(rnd(0, 1)) o0.insert(cs[size_t(i)].get());
    if(rnd(0, 1)) v0.insert(vs[size_t(i)].get());
  }
  c = c0, b = b0, o = o0, x = v0;
  std::ostringstream h;
  h << "solver events";
  int n = rnd(0, 14);
  for(int i = 0; i < n; ++i)
  {
    int k = rnd(0, 3);
    auto & ci = cs[size_t(k)];
    const void * p = ci.get();
    const void * q = vs[size_t(k)].get();
    bool any = c.count(p) || b.count(p) || o.count(p);
    switch(rnd(0, 6))
    {
      case 0:
        if(!any) { se.addConstraint(ci); c.insert(p); h << " +c" << k; }
        else if(c.count(p)) { se.removeConstraint(ci); c.erase(p); h << " -c" << k; }
        break;
      case 1:
        if(!any) { se.addBound(ci); b.insert(p); h << " +b" << k; }
        else if(b.count(p)) { se.removeBound(ci); b.erase(p); h << " -b" << k; }
        break;
      case 2:
        if(!any) { se.addObjective({ci, req, 2. + k}); o.insert(p); h << " +o" << k; }
        else if(o.count(p)) { se.removeObjective(ci); o.erase(p); h << " -o" << k; }
        break;
      case 3:
      case 4:
        if(x.count(q)) { hidden = hidden || !v0.count(q); se.removeVariable(vs[size_t(k)]); x.erase(q); h << " -x" << k; }
        else { hidden = hidden || v0.count(q); se.addVariable(vs[size_t(k)]); x.insert(q); h << " +x" << k; }
        break;
      case 5: se.addScalarWeightEvent(ci.get()); w[p] |= 1; h << " w" << k; break;
      case 6: se.addVectorWeightEvent(ci.get()); w[p] |= 2; h << " a" << k; break;
    }
  }
  vp::context() = h.str();
  auto apply = [&](std::set<const void *> s, const auto & rem, const auto & add, auto ptr, const char * what, const std::set<const void *> & want) {
    std::string t = std::string("the changes of ") + what + " lead to what one by one would";
    std::set<const void *> r, a;
    for(auto & e : rem)
    {
      EXPECT_VP(s.erase(e.get()) == 1, t, h.str() << " : removes what is not there");
      r.insert(e.get());
    }
    for(auto & e : add)
    {
      EXPECT_VP(s.insert(ptr(e)).second, t, h.str() << " : adds what is there");
      a.insert(ptr(e));
    }
    EXPECT_VP(s == want, t, h.str());
    for(auto p : r) EXPECT_VP(!a.count(p), std::string("additions and removals of ") + what + " cancel each other", h.str());
  };
  auto get = [](const auto & e) { return static_cast<const void *>(e.get()); };
  apply(c0, se.removedConstraints(), se.addedConstraints(), get, "constraints", c);
  apply(b0, se.removedBounds(), se.addedBounds(), get, "bounds", b);
  apply(o0, se.removedObjectives(), se.addedObjectives(), [](const auto & e) { return static_cast<const void *>(e.c.get()); }, "objectives", o);
  apply(v0, se.removedVariables(), se.addedVariables(), get, "variables", x);
  for(auto & e : se.addedObjectives())
    EXPECT_VP(e.req == req && e.scalarizationWeight == 2. + (std::find(cs.begin(), cs.end(), e.c) - cs.begin()), "an objective is added as it was given", h.str());
  EXPECT_VP(se.hasHiddenVariableChange() == hidden, "a variable removed and added again is reported", h.str());
  std::map<const void *, int> g;
  for(auto & e : se.weightEvents())
  {
    EXPECT_VP(!g.count(e.c), "one weight event per constraint", h.str());
    g[e.c] = (e.scalar ? 1 : 0) | (e.vector ? 2 : 0);
  }
  EXPECT_VP(g == w, "weight events are those notified", h.str());
  ++vp::explored();
}
SECTION("changes given to a solver", 1)
{
  while(vp::more()) lists();
}

// ---- several schemes resolving the same problem at different times
struct Sch
{
  int back;
  bool damped;
  std::unique_ptr<scheme::WeightedLeastSquares> p;
  bool mayRefuse = false; // the weight of a task of priority 0 changed since the last resolution
};
static std::unique_ptr<scheme::WeightedLeastSquares> schemePtr(int b, bool d)
{ return std::unique_ptr<scheme::WeightedLeastSquares>(new scheme::WeightedLeastSquares(makeScheme(b, d))); }
static bool resolve(World & w, Sch & s, const char * who)
{
  w.hist << " " << who;
  vp::context() = w.context();
  auto e = w.expected(false, false);
  bool unsupported = false;
  for(auto & t : w.tasks) unsupported = unsupported || (t->in && t->prio > 0 && t->type != Type::EQUAL && !w.isSubst(*t));
  for(int attempt = 0;; ++attempt)
  {
    int calls = vpbackend::last().calls;
    try
    {
      s.p->solve(*w.pb);
    }
    catch(std::exception & x)
    {
      w.hist << "(refused)";
      if(unsupported) return true;
      if(attempt == 0 && s.mayRefuse) continue; // the change is refused, not the others
      vp::fail("a problem that can be solved is not refused", w.context() + " : " + x.what());
      return false;
    }
    if(unsupported)
    {
      vp::fail("a task that the scheme does not handle is refused", w.context());
      return false;
    }
    s.mayRefuse = false;
    if(e.empty) return true;
    EXPECT_VP(vpbackend::last().calls == calls + 1, "the back end is called", w.context());
    std::string m = compare(w, variablesOf(*w.pb, *s.p), s.back, s.damped && e.nObj == 0);
    ++vp::explored();
    if(!m.empty())
    {
      vp::fail("after pending changes, the problem resolved is the one described", w.context() + " : " + m);
      return false;
    }
    return true;
  }
}
static void several(bool subst, bool refusals)
{
  World w;
  w.makeVars(false);
  std::vector<Sch> ss;
  int ns = rnd(1, 3);
  for(int i = 0; i < ns; ++i)
  {
    int b = rnd(0, NBACK - 1);
    bool d = rnd(0, 4) == 0;
    ss.push_back({b, d, schemePtr(b, d)});
    w.hist << " [S" << i << ": " << backName(b) << (d ? ", damped" : "") << "]";
  }
  static const char * names[] = {"S0", "S1", "S2"};
  int k = rnd(0, 4);
  for(int i = 0; i < k; ++i) w.add(*w.makeTask(1, false));
  int steps = rnd(2, 25);
  for(int i = 0; i < steps; ++i)
  {
    std::vector<T *> in, out, all;
    for(auto & t : w.tasks)
    {
      (t->in ? in : out).push_back(t.get());
      all.push_back(t.get());
    }
    auto pick = [](std::vector<T *> & v) { return v[size_t(rnd(0, int(v.size()) - 1))]; };
    switch(rnd(0, 9))
    {
      case 0:
      case 1:
        if(in.size() < 6) w.add(*w.makeTask(1, refusals && rnd(0, 3) == 0));
        break;
      case 2:
        if(out.size()) w.add(*pick(out));
        break;
      case 3:
      case 4:
        if(in.size())
        {
          T * t = pick(in);
          if(w.isSubst(*t))
          {
            // removing the constraint removes its (simple) substitution
            for(size_t j = 0; j < w.subs.size(); ++j)
              if(w.subs[j].t == t)
              {
                w.subs.erase(w.subs.begin() + long(j));
                break;
              }
          }
          w.remove(*t);
        }
        break;
      case 5:
      case 6:
        if(all.size())
        {
          T * t = pick(all);
          if(t->prio == 0 && t->in && !refusals) break;
          if(t->prio == 0 && t->in)
            for(auto & s : ss) s.mayRefuse = true;
          if(rnd(0, 1)) w.weight(*t);
          else w.aweight(*t);
        }
        break;
      case 7:
        if(!subst) break;
        if(w.subs.size() && rnd(0, 1)) w.unsubstitute(size_t(rnd(0, int(w.subs.size()) - 1)));
        else if(in.size()) w.substitute(*pick(in));
        break;
      default:
      {
        int j = rnd(0, ns - 1);
        if(!resolve(w, ss[size_t(j)], names[j])) return;
      }
    }
  }
  for(int j = 0; j < ns; ++j)
    if(!resolve(w, ss[size_t(j)], names[j])) return;
  bool d = rnd(0, 4) == 0;
  int b = rnd(0, NBACK - 1);
  Sch fresh{b, d, schemePtr(b, d)};
  resolve(w, fresh, "fresh");
}
SECTION("several schemes", 3)
{
  while(vp::more()) several(false, false);
}
SECTION("several schemes, with substitutions", 2)
{
  while(vp::more()) several(true, false);
}
SECTION("several schemes, with refused changes", 2)
{
  while(vp::more()) several(rnd(0, 1), true);
}

// ---- removals that are refused
static void refused()
{
  World w;
  w.makeVars(false);
  int back = rnd(0, NBACK - 1);
  Sch s{back, false, schemePtr(back, false)};
  // two equations on two variables, used together for a substitution
  int m = rnd(1, 2);
  VariablePtr x = Space(m).createVariable("u"), y = Space(m).createVariable("v");
  auto mk = [&](bool first) {
    auto A = rm(m, m), B = rm(m, m);
    (first ? A : B).diagonal().array() += 40;
    std::vector<MatrixConstRef> M;
    M.push_back(A);
    M.push_back(B);
    std::vector<VariablePtr> xs{x, y};
    auto f = std::make_shared<function::BasicLinearFunction>(M, xs, rv(m));
    return std::make_shared<TaskWithRequirements>(Task(f, Type::EQUAL, task_dynamics::None()), PriorityLevel(0));
  };
  auto t1 = mk(true), t2 = mk(false);
  w.hist << " two equations";
  w.pb->add(t1);
  w.pb->add(t2);
  hint::Substitution sub({w.pb->constraint(*t1), w.pb->constraint(*t2)}, {x, y});
  w.pb->add(sub);
  for(int i = 0; i < 2; ++i) w.add(*w.makeTask(1, false));
  if(rnd(0, 1)) s.p->solve(*w.pb);
  auto & t = rnd(0, 1) ? t1 : t2;
  bool threw = false;
  try
  {
    w.pb->remove(*t);
  }
  catch(std::exception &)
  {
    threw = true;
  }
  vp::context() = w.context();
  EXPECT_VP(threw, "the removal of a constraint of a non-simple substitution is refused", w.context());
  EXPECT_VP(w.pb->size() == 4 && w.pb->constraints().size() == 4 && w.pb->constraintNoThrow(*t) && w.pb->substitutions().uses(w.pb->constraint(*t)),
            "a removal that is refused changes nothing", w.context());
  try
  {
    s.p->solve(*w.pb);
  }
  catch(std::exception & e)
  {
    vp::fail("after a removal that is refused, the problem can be resolved", w.context() + e.what());
    return;
  }
  ++vp::explored();
}
SECTION("refused removals", 1)
{
  while(vp::more()) refused();
}
