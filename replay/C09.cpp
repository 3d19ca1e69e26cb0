#include "vp.h"
#include <algorithm>
#include <memory>
#include <tvm/graph/CallGraph.h>
#include <tvm/graph/abstract/Node.h>
#include <tvm/graph/abstract/OutputSelector.h>

using CallT = std::pair<int, int>;
static std::vector<CallT> executed;

/** a source of outputs that is not a node */
class Src : public tvm::graph::abstract::Outputs
{
public:
  SET_OUTPUTS(Src, A, B)
};

class N : public tvm::graph::abstract::Node<N>
{
public:
  SET_OUTPUTS(N, O0, O1, O2, O3)
  SET_UPDATES(N, U0, U1, U2, U3)
  int n;
  N(int i) : n(i) { registerUpdates(Update::U0, &N::u0, Update::U1, &N::u1, Update::U2, &N::u2, Update::U3, &N::u3); }
  static Update_ up(int i) { return i == 0 ? Update::U0 : i == 1 ? Update::U1 : i == 2 ? Update::U2 : Update::U3; }
  static Output_ out(int i) { return i == 0 ? Output::O0 : i == 1 ? Output::O1 : i == 2 ? Output::O2 : Output::O3; }
  void u0() { executed.push_back({n, 0}); }
  void u1() { executed.push_back({n, 1}); }
  void u2() { executed.push_back({n, 2}); }
  void u3() { executed.push_back({n, 3}); }
  void outDep(int o, int u) { addOutputDependency<N>(out(o), up(u)); }
  void outDep2(int o, int p, int u) { addOutputDependency<N>({out(o), out(p)}, up(u)); }
  void intDep(int u, int v) { addInternalDependency<N>(up(u), up(v)); }
  void inDep(int u, std::shared_ptr<N> s, int o) { addInputDependency<N>(up(u), s, out(o)); }
  void inDep(int u, N & s, int o) { addInputDependency<N>(up(u), s, out(o)); }
  void inDep2(int u, std::shared_ptr<N> s, int o, int p) { addInputDependency<N>(up(u), s, out(o), out(p)); }
  void inSrc(int u, std::shared_ptr<Src> s) { addInputDependency<N>(up(u), s, Src::Output::A); }
  void dirDep(int o, N & s, int p) { addDirectDependency<N>(out(o), s, out(p)); }
  void dirDep(int o, std::shared_ptr<N> s, int p) { addDirectDependency<N>(out(o), s, out(p)); }
  void dirSrc(int o, std::shared_ptr<Src> s) { addDirectDependency<N>(out(o), s, Src::Output::B); }
};

struct Net
{
  std::vector<std::shared_ptr<N>> nodes;
  std::shared_ptr<Src> src = std::make_shared<Src>();
  std::map<CallT, std::set<CallT>> needs;          // update -> updates it depends on (directly)
  std::map<CallT, std::set<CallT>> outs;           // output -> updates giving it
  std::map<CallT, std::set<CallT>> inputs;         // node i -> outputs it has as inputs (key (i,0))
  std::map<CallT, int> rank;
  std::string h;

  bool below(const std::set<CallT> & s, int r)
  {
    for(auto & c : s)
      if(rank[c] >= r) return false;
    return true;
  }
  void build(int nn)
  {
    std::vector<int> ranks;
    for(int i = 0; i < 4 * nn; ++i) ranks.push_back(i);
    std::shuffle(ranks.begin(), ranks.end(), vp::rng());
    for(int i = 0; i < nn; ++i)
    {
      nodes.push_back(std::make_shared<N>(i));
      for(int u = 0; u < 4; ++u) rank[{i, u}] = ranks[size_t(4 * i + u)];
    }
    h = vp::Msg() << nn << " nodes; ";
    auto node = [&]() { return vp::rnd(0, nn - 1); };
    auto k4 = []() { return vp::rnd(0, 3); };
    int nOut = vp::rnd(nn, 4 * nn);
    std::set<CallT> direct;
    for(int t = 0; t < nOut; ++t)
    {
      int n = node(), o = k4();
      CallT key{n, o};
      if(direct.count(key)) continue;
      if(vp::rnd(0, 3) || outs.count(key))
      {
        int u = k4();
        int p = k4();
        if(vp::rnd(0, 4) == 0 && !direct.count({n, p}))
        {
          nodes[size_t(n)]->outDep2(o, p, u);
          outs[{n, p}].insert({n, u});
          h += vp::Msg() << "out " << n << ".o" << p << "<-u" << u << "; ";
        }
        else
          nodes[size_t(n)]->outDep(o, u);
        outs[key].insert({n, u});
        h += vp::Msg() << "out " << n << ".o" << o << "<-u" << u << "; ";
      }
      else
      {
        int m = node(), p = k4();
        if(vp::rnd(0, 9) == 0)
        {
          nodes[size_t(n)]->dirSrc(o, src);
          outs[key];
          h += vp::Msg() << "direct " << n << ".o" << o << "<-src; ";
        }
        else
        {
          if(!outs.count({m, p}) || CallT{m, p} == key) continue;
          if(n == m || vp::rnd(0, 1)) // a node that holds itself would never be destroyed
            nodes[size_t(n)]->dirDep(o, *nodes[size_t(m)], p);
          else
            nodes[size_t(n)]->dirDep(o, nodes[size_t(m)], p);
          outs[key] = outs[{m, p}];
          inputs[{n, 0}].insert({m, p});
          h += vp::Msg() << "direct " << n << ".o" << o << "<-" << m << ".o" << p << "; ";
          direct.insert({m, p}); // its dependencies do not change afterwards
        }
        direct.insert(key);
      }
    }
    int nIn = vp::rnd(nn, 6 * nn);
    for(int t = 0; t < nIn; ++t)
    {
      int n = node(), u = k4(), r = rank[{n, u}];
      if(vp::rnd(0, 2) == 0)
      {
        int v = k4();
        if(rank[{n, v}] >= r) continue;
        nodes[size_t(n)]->intDep(u, v);
        needs[{n, u}].insert({n, v});
        h += vp::Msg() << n << ".u" << u << " after u" << v << "; ";
      }
      else if(vp::rnd(0, 14) == 0)
        nodes[size_t(n)]->inSrc(u, src);
      else
      {
        int m = node(), o = k4(), p = k4();
        if(!below(outs[{m, o}], r)) continue;
        bool two = vp::rnd(0, 2) == 0 && below(outs[{m, p}], r);
        if(m >= n)
          nodes[size_t(n)]->inDep(u, *nodes[size_t(m)], o);
        else if(two)
        {
          nodes[size_t(n)]->inDep2(u, nodes[size_t(m)], o, p);
          needs[{n, u}].insert(outs[{m, p}].begin(), outs[{m, p}].end());
          inputs[{n, 0}].insert({m, p});
          h += vp::Msg() << n << ".u" << u << " after " << m << ".o" << p << "; ";
        }
        else
          nodes[size_t(n)]->inDep(u, nodes[size_t(m)], o);
        needs[{n, u}].insert(outs[{m, o}].begin(), outs[{m, o}].end());
        inputs[{n, 0}].insert({m, o});
        h += vp::Msg() << n << ".u" << u << " after " << m << ".o" << o << "; ";
      }
    }
  }
  void closure(std::set<CallT> & s, const CallT & c)
  {
    if(!s.insert(c).second) return;
    for(auto & d : needs[c]) closure(s, d);
  }
};

static std::string show(const std::vector<CallT> & v)
{
  std::ostringstream o;
  for(auto & c : v) o << c.first << ".u" << c.second << " ";
  return o.str();
}

static void run(Net & net, tvm::graph::CallGraph & g, const std::set<CallT> & requested)
{
  std::set<CallT> want;
  for(auto & o : requested)
    for(auto & u : net.outs[o]) net.closure(want, u);
  for(int rep = 0; rep < 2; ++rep)
  {
    executed.clear();
    g.execute();
    ++vp::explored();
    std::map<CallT, int> pos;
    for(size_t i = 0; i < executed.size(); ++i)
    {
      EXPECT_VP(!pos.count(executed[i]), "an update is executed once", show(executed));
      pos[executed[i]] = int(i);
    }
    for(auto & c : want)
    {
      EXPECT_VP(pos.count(c), "every update needed by the requested outputs is executed",
                c.first << ".u" << c.second << " missing in " << show(executed));
      if(!pos.count(c)) continue;
      for(auto & d : net.needs[c])
        EXPECT_VP(pos.count(d) && pos[d] < pos[c], "an update runs after the ones it depends on",
                  c.first << ".u" << c.second << " needs " << d.first << ".u" << d.second << ": " << show(executed));
    }
    for(auto & c : executed)
      EXPECT_VP(want.count(c), "nothing else is executed", c.first << ".u" << c.second << " in " << show(executed));
  }
}

static void scenario()
{
  Net net;
  int nn = vp::rnd(1, vp::thorough ? 7 : 5);
  net.build(nn);
  tvm::graph::CallGraph g;
  std::vector<std::shared_ptr<tvm::graph::internal::Inputs>> ins;
  std::vector<std::set<CallT>> req;
  int ni = vp::rnd(1, 2);
  for(int i = 0; i < ni; ++i)
  {
    ins.push_back(std::make_shared<tvm::graph::internal::Inputs>());
    req.push_back({});
  }
  int rounds = vp::rnd(1, 5);
  std::string h = net.h;
  for(int r = 0; r < rounds; ++r)
  {
    int ops = vp::rnd(0, 4);
    for(int k = 0; k < ops; ++k)
    {
      size_t i = size_t(vp::rnd(0, ni - 1));
      int n = vp::rnd(0, nn - 1), o = vp::rnd(0, 3), p = vp::rnd(0, 3);
      auto & s = net.nodes[size_t(n)];
      int w = vp::rnd(0, 6);
      if(w < 3)
      {
        if(w == 0)
        {
          ins[i]->addInput(s, N::out(o), N::out(p));
          req[i].insert({n, p});
          h += vp::Msg() << "in" << i << "+=" << n << ".o" << p << " ";
        }
        else if(w == 1)
          ins[i]->addInput(*s, N::out(o));
        else
          ins[i]->addInput(s, N::out(o));
        req[i].insert({n, o});
        h += vp::Msg() << "in" << i << "+=" << n << ".o" << o << " ";
      }
      else if(w == 3)
      {
        if(vp::rnd(0, 1)) ins[i]->addInput(net.src, Src::Output::A);
      }
      else
      {
        bool has = false, hasO = req[i].count({n, o});
        for(auto & q : req[i]) has = has || q.first == n;
        bool all = vp::rnd(0, 2) == 0;
        h += vp::Msg() << "in" << i << "-=" << n << (all ? "" : vp::str(o)) << " ";
        vp::context() = h;
        bool threw = false;
        try
        {
          if(all)
            ins[i]->removeInput(s.get());
          else
            ins[i]->removeInput(s.get(), N::out(o));
        }
        catch(std::exception &)
        {
          threw = true;
        }
        EXPECT_VP(threw == !(all ? has : hasO), "exactly the inputs that are there can be removed", "");
        for(int q = 0; q < 4; ++q)
          if(all || q == o) req[i].erase({n, q});
      }
      vp::context() = h;
      for(int q = 0; q < nn; ++q)
      {
        bool has = false;
        for(auto & c : req[i]) has = has || c.first == q;
        EXPECT_VP(bool(ins[i]->getInput(net.nodes[size_t(q)])) == has, "the inputs are those added and not removed", q);
      }
    }
    // rebuild
    std::set<CallT> cur;
    g.clear();
    for(int i = 0; i < ni; ++i)
    {
      if(vp::rnd(0, 4) == 0)
      {
        // planned in two steps
        g.update();
        h += "update ";
      }
      g.add(ins[size_t(i)]);
      if(vp::rnd(0, 5) == 0) g.add(ins[size_t(i)]);
      cur.insert(req[size_t(i)].begin(), req[size_t(i)].end());
    }
    if(vp::rnd(0, 4) == 0)
    {
      // a node used as the list of its inputs
      int n = vp::rnd(0, nn - 1);
      g.add(net.nodes[size_t(n)]);
      auto & is = net.inputs[{n, 0}];
      cur.insert(is.begin(), is.end());
      h += vp::Msg() << "add inputs of node " << n << " ";
    }
    g.update();
    h += "rebuild ";
    vp::context() = h;
    run(net, g, cur);
    if(vp::rnd(0, 5) == 0)
    {
      g.update();
      run(net, g, cur);
    }
    if(vp::rnd(0, 7) == 0)
    {
      g.clear();
      g.update();
      run(net, g, {});
    }
  }
}

SECTION("random networks and histories of requests", 1)
{
  while(vp::more()) scenario();
}
