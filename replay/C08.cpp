#include "vp.h"
#include <algorithm>
#include <tvm/graph/internal/DependencyGraph.h>
using tvm::graph::internal::DependencyGraph;
using Edge = std::pair<size_t, size_t>;

struct Model
{
  size_t n = 0;
  std::set<Edge> e;
  std::vector<std::vector<char>> reach() const // by at least one edge
  {
    std::vector<std::vector<char>> r(n, std::vector<char>(n, 0));
    for(auto & x : e) r[x.first][x.second] = 1;
    for(size_t k = 0; k < n; ++k)
      for(size_t i = 0; i < n; ++i)
        for(size_t j = 0; j < n; ++j)
          if(r[i][k] && r[k][j]) r[i][j] = 1;
    return r;
  }
};

static std::string show(const Model & m)
{
  std::ostringstream o;
  o << m.n << " nodes, edges";
  for(auto & x : m.e) o << " " << x.first << "->" << x.second;
  return o.str();
}

static std::string show(const std::vector<std::vector<size_t>> & g)
{
  std::ostringstream o;
  for(auto & x : g) o << vp::str(x);
  return o.str();
}

static void check(const DependencyGraph & g, const Model & m, bool reduced = true)
{
  ++vp::explored();
  EXPECT_VP(g.size() == m.n, "the graph has the nodes added and not removed", g.size() << " for " << m.n);
  EXPECT_VP(g.edges() == m.e, "the graph has the edges added between remaining nodes", show(m));
  if(g.size() != m.n || g.edges() != m.e) return;
  auto r = m.reach();
  bool cyc = false;
  for(size_t i = 0; i < m.n; ++i) cyc = cyc || r[i][i];
  // order
  std::vector<size_t> ord;
  bool threw = false;
  try
  {
    ord = g.order();
  }
  catch(std::exception &)
  {
    threw = true;
  }
  EXPECT_VP(!cyc || threw, "a cycle is always reported as an error", show(m) << " order " << vp::str(ord));
  EXPECT_VP(cyc || !threw, "a graph without cycle has an order", show(m));
  auto isPerm = [&](std::vector<size_t> o) {
    std::sort(o.begin(), o.end());
    for(size_t i = 0; i < o.size(); ++i)
      if(o[i] != i) return false;
    return o.size() == m.n;
  };
  if(!cyc && !threw)
  {
    EXPECT_VP(isPerm(ord), "the order lists each node exactly once", show(m) << " order " << vp::str(ord));
    if(isPerm(ord))
    {
      std::vector<size_t> pos(m.n);
      for(size_t i = 0; i < m.n; ++i) pos[ord[i]] = i;
      for(auto & x : m.e)
        EXPECT_VP(pos[x.second] < pos[x.first], "every node comes after all the nodes it depends on",
                  show(m) << " order " << vp::str(ord));
    }
  }
  // grouped order
  std::vector<std::vector<size_t>> gr;
  threw = false;
  try
  {
    gr = g.groupedOrder();
  }
  catch(std::exception &)
  {
    threw = true;
  }
  EXPECT_VP(!cyc || threw, "a cycle is always reported as an error by the grouped order", show(m) << " order " << show(gr));
  EXPECT_VP(cyc || !threw, "a graph without cycle has a grouped order", show(m));
  if(!cyc && !threw)
  {
    std::vector<size_t> all, grp(m.n, 0), pos(m.n, 0);
    bool range = true;
    for(size_t k = 0; k < gr.size(); ++k)
    {
      EXPECT_VP(!gr[k].empty(), "there is no empty group", show(m) << " groups " << show(gr));
      for(size_t p = 0; p < gr[k].size(); ++p)
      {
        all.push_back(gr[k][p]);
        if(gr[k][p] >= m.n)
        {
          range = false;
          continue;
        }
        grp[gr[k][p]] = k;
        pos[gr[k][p]] = p;
      }
    }
    bool ok = range && isPerm(all);
    EXPECT_VP(ok, "the grouped order lists each node exactly once", show(m) << " groups " << show(gr));
    if(ok)
    {
      // groups are the connected components
      std::vector<size_t> c(m.n);
      for(size_t i = 0; i < m.n; ++i) c[i] = i;
      for(size_t it = 0; it < m.n; ++it)
        for(auto & x : m.e)
          c[x.first] = c[x.second] = std::min(c[x.first], c[x.second]);
      for(auto & x : m.e)
        EXPECT_VP(grp[x.first] == grp[x.second] && pos[x.second] < pos[x.first],
                  "in its group every node comes after all the nodes it depends on", show(m) << " groups " << show(gr));
      for(size_t i = 0; i < m.n; ++i)
        for(size_t j = 0; j < m.n; ++j)
          EXPECT_VP((grp[i] == grp[j]) == (c[i] == c[j]), "a group holds exactly the nodes connected to each other",
                    show(m) << " groups " << show(gr));
    }
  }
  // reduction
  if(!reduced) return;
  auto red = g.reduce();
  auto & scc = red.first;
  std::vector<size_t> all, comp(m.n, 0);
  bool range = true;
  for(size_t k = 0; k < scc.size(); ++k)
    for(auto i : scc[k])
    {
      all.push_back(i);
      if(i < m.n)
        comp[i] = k;
      else
        range = false;
    }
  bool ok = range && isPerm(all);
  EXPECT_VP(ok, "each node is in exactly one strongly connected component", show(m) << " components " << show(scc));
  if(!ok) return;
  for(size_t i = 0; i < m.n; ++i)
    for(size_t j = 0; j < m.n; ++j)
      EXPECT_VP((comp[i] == comp[j]) == (i == j || (r[i][j] && r[j][i])),
                "components gather exactly the nodes that reach each other", show(m) << " components " << show(scc));
  Model q;
  q.n = scc.size();
  for(auto & x : m.e)
    if(comp[x.first] != comp[x.second]) q.e.insert({comp[x.first], comp[x.second]});
  EXPECT_VP(red.second.size() == q.n && red.second.edges() == q.e,
            "the reduced graph has exactly the edges between different components",
            show(m) << " components " << show(scc) << " reduced edges " << red.second.edges().size());
  check(red.second, q, false);
  bool t2 = false;
  try
  {
    red.second.order();
  }
  catch(std::exception &)
  {
    t2 = true;
  }
  EXPECT_VP(!t2, "the reduced graph has no cycle", show(m));
}

SECTION("all graphs of up to 3 nodes, and of 4 nodes in random order", 1)
{
  for(size_t n = 0; n <= 4; ++n)
  {
    unsigned long tot = 1ul << (n * n), step = 1, cur = 0;
    if(n == 4)
    {
      step = 40503; // odd: visits all of them
      if(vp::thorough) step = 1;
    }
    for(unsigned long c = 0; c < tot && vp::more(); ++c, cur = (cur + step) % tot)
    {
      DependencyGraph g;
      Model m;
      vp::context() = "enumerated";
      for(size_t i = 0; i < n; ++i) g.addNode();
      m.n = n;
      for(size_t k = 0; k < n * n; ++k)
      {
        size_t b = (k * 7 + c) % (n * n); // varying insertion order
        if(n == 7) b = k;
        if((n * n) % 7 == 0) b = k;
        if(cur >> b & 1)
        {
          g.addEdge(b / n, b % n);
          m.e.insert({b / n, b % n});
        }
      }
      check(g, m);
    }
  }
}

SECTION("random acyclic graphs", 1)
{
  while(vp::more())
  {
    size_t n = size_t(vp::rnd(1, 12));
    DependencyGraph g;
    Model m;
    vp::context() = "random acyclic";
    std::vector<size_t> perm(n);
    for(size_t i = 0; i < n; ++i) perm[i] = i;
    std::shuffle(perm.begin(), perm.end(), vp::rng());
    for(size_t i = 0; i < n; ++i) g.addNode();
    m.n = n;
    int ne = vp::rnd(0, int(2 * n));
    for(int k = 0; k < ne && n > 1; ++k)
    {
      int i = vp::rnd(0, int(n) - 2), j = vp::rnd(i + 1, int(n) - 1);
      g.addEdge(perm[size_t(i)], perm[size_t(j)]);
      m.e.insert({perm[size_t(i)], perm[size_t(j)]});
    }
    check(g, m);
    // one more edge, possibly closing a cycle far from any root
    int i = vp::rnd(0, int(n) - 1), j = vp::rnd(0, int(n) - 1);
    bool isNew = g.addEdge(size_t(i), size_t(j));
    EXPECT_VP(isNew == m.e.insert({size_t(i), size_t(j)}).second, "adding an edge tells whether it is new", show(m));
    check(g, m);
  }
}

SECTION("histories of additions, removals and clearings", 2)
{
  while(vp::more())
  {
    DependencyGraph g;
    Model m;
    std::string h;
    int len = vp::rnd(3, vp::thorough ? 40 : 22), dens = vp::rnd(2, 8);
    for(int k = 0; k < len; ++k)
    {
      int w = vp::rnd(0, 11);
      if(m.n == 0 || w < 3)
      {
        h += "node ";
        vp::context() = h;
        size_t id = g.addNode();
        EXPECT_VP(id == m.n, "nodes are numbered in order", id);
        ++m.n;
      }
      else if(w < 3 + dens)
      {
        size_t a = size_t(vp::rnd(0, int(m.n) - 1)), b = size_t(vp::rnd(0, int(m.n) - 1));
        if(a < b && vp::rnd(0, 3)) std::swap(a, b);
        h += vp::Msg() << a << "->" << b << " ";
        vp::context() = h;
        bool isNew = g.addEdge(a, b);
        EXPECT_VP(isNew == m.e.insert({a, b}).second, "adding an edge tells whether it is new", "");
      }
      else if(w < 11 || vp::rnd(0, 5))
      {
        size_t a = size_t(vp::rnd(0, int(m.n) - 1));
        h += vp::Msg() << "remove(" << a << ") ";
        vp::context() = h;
        g.removeNode(a);
        std::set<Edge> e;
        for(auto & x : m.e)
          if(x.first != a && x.second != a) e.insert({x.first - (x.first > a), x.second - (x.second > a)});
        m.e = e;
        --m.n;
      }
      else
      {
        h += "clear ";
        vp::context() = h;
        g.clear();
        m = Model();
      }
      if(k == len - 1 || vp::rnd(0, 2) == 0) check(g, m);
    }
  }
}
