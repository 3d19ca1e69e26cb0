#include "vp.h"
#include <tvm/Variable.h>
#include <tvm/internal/VariableCountingVector.h>
#include <tvm/internal/VariableVectorPartition.h>
using namespace tvm;
using tvm::internal::VariableCountingVector;

struct Part { int sup; int s, d; VariablePtr v; std::string name; };
/** supervariables and the parts offered to the counting vector */
struct World
{
  std::vector<VariablePtr> sup;
  std::vector<Part> parts;
  void offer(VariablePtr v)
  {
    for(int k = 0; k < int(sup.size()); ++k)
      if(v->superVariable() == sup[size_t(k)])
      {
        Range r = v->subvariableRange();
        parts.push_back({k, r.start, r.dim, v, vp::Msg() << char('x' + k) << "[" << r.start << "," << r.start + r.dim << ")"});
      }
  }
  World()
  {
    VariablePtr x = Space(6).createVariable("x");
    VariablePtr y = Space(3).createVariable("y");
    Space m = Space(Space::Type::SE3) * Space(2) * Space(Space::Type::SO3);
    VariablePtr z = m.createVariable("z");
    auto dx = dot(x);
    auto dz = dot(z);
    sup = {x, y, z, dx, dz};
    for(auto v : {x, y, dx})
    {
      offer(v);
      for(int s = 0; s < v->size(); ++s)
        for(int d = 1; s + d <= v->size(); ++d) offer(v->subvariable(Space(d), Space(s)));
    }
    Space a(Space::Type::SE3), b(2), c(Space::Type::SO3), one(1);
    for(auto v : {z, dz})
    {
      offer(v);
      offer(v->subvariable(a));
      offer(v->subvariable(a * b));
      offer(v->subvariable(a * one));
      offer(v->subvariable(b, a));
      offer(v->subvariable(one, a));
      offer(v->subvariable(one, a * one));
      offer(v->subvariable(b * c, a));
      offer(v->subvariable(c, a * b));
      offer(v->subvariable(one * c, a * one));
    }
  }
};

/** one variable, whose parts are made when they are needed */
struct Long : World
{
  explicit Long(int n)
  {
    sup = {Space(n).createVariable("l")};
    parts.clear();
  }
  Part part(int s, int d) const
  {
    return {0, s, d, sup[0]->subvariable(Space(d), Space(s)), vp::Msg() << "l[" << s << "," << s + d << ")"};
  }
};

typedef std::map<int, std::vector<int>> Mult;

struct Sim
{
  World & w;
  bool split;
  VariableCountingVector c;
  std::vector<std::vector<int>> m;
  std::vector<std::set<std::pair<int, int>>> addedSince; // ranges added to each supervariable since it was last empty
  std::vector<bool> onlyAdd;
  std::vector<std::set<int>> ends;
  std::string h;

  Sim(World & w, bool s) : w(w), split(s), c(s), m(w.sup.size()), addedSince(w.sup.size()), onlyAdd(w.sup.size(), true), ends(w.sup.size())
  {
    h = vp::Msg() << "VariableCountingVector(" << s << ") ";
    for(size_t k = 0; k < m.size(); ++k) m[k].assign(size_t(w.sup[k]->size()), 0);
  }
  std::set<std::tuple<int, int, int>> merged() const
  {
    std::set<std::tuple<int, int, int>> r;
    for(size_t k = 0; k < m.size(); ++k)
      for(size_t i = 0; i < m[k].size(); ++i)
        if(m[k][i] > 0 && (i == 0 || m[k][i - 1] == 0))
        {
          size_t j = i;
          while(j < m[k].size() && m[k][j] > 0) ++j;
          r.insert({int(k), int(i), int(j - i)});
        }
    return r;
  }
  void add(const Part & p)
  {
    h += "add " + p.name + " ";
    vp::context() = h;
    auto b = merged();
    bool r = c.add(p.v);
    for(int i = p.s; i < p.s + p.d; ++i) m[size_t(p.sup)][size_t(i)]++;
    addedSince[size_t(p.sup)].insert({p.s, p.d});
    ends[size_t(p.sup)].insert(p.s);
    ends[size_t(p.sup)].insert(p.s + p.d);
    ++vp::explored();
    if(!split) EXPECT_VP(r == (b != merged()), "change reported", r);
  }
  void remove(const Part & p)
  {
    h += "remove " + p.name + " ";
    vp::context() = h;
    bool legal = true;
    auto & mm = m[size_t(p.sup)];
    for(int i = p.s; i < p.s + p.d; ++i) legal = legal && mm[size_t(i)] > 0;
    auto b = merged();
    bool threw = false, r = false;
    try
    {
      r = c.remove(*p.v);
    }
    catch(std::exception &)
    {
      threw = true;
    }
    ++vp::explored();
    EXPECT_VP(threw == !legal, legal ? "a legal removal is accepted" : "removing what is not there is refused", "");
    if(!legal) return;
    onlyAdd[size_t(p.sup)] = false;
    ends[size_t(p.sup)].insert(p.s);
    ends[size_t(p.sup)].insert(p.s + p.d);
    for(int i = p.s; i < p.s + p.d; ++i) mm[size_t(i)]--;
    bool empty = true;
    for(int x : mm) empty = empty && x == 0;
    if(empty) addedSince[size_t(p.sup)].clear();
    if(!split && !threw) EXPECT_VP(r == (b != merged()), "change reported", r);
  }
  int supOf(const Variable & v) const
  {
    for(size_t k = 0; k < w.sup.size(); ++k)
      if(v.superVariable() == w.sup[k]) return int(k);
    return -1;
  }
  void query()
  {
    h += "? ";
    vp::context() = h;
    const VariableVector & v = c.variables();
    std::ostringstream os;
    std::set<std::tuple<int, int, int>> got;
    int tot = 0;
    bool ok = true;
    std::map<int, int> last;
    for(const auto & x : v)
    {
      int k = supOf(*x);
      Range r = x->subvariableRange();
      os << char('x' + k) << "[" << r.start << "," << r.start + r.dim << ") ";
      ok = ok && k >= 0 && got.insert({k, r.start, r.dim}).second;
      if(k < 0) continue;
      ok = ok && (!last.count(k) || last[k] <= r.start);
      last[k] = r.start + r.dim;
      tot += r.dim;
      for(int i = r.start; ok && i < r.start + r.dim; ++i) ok = m[size_t(k)][size_t(i)] > 0 && (!split || m[size_t(k)][size_t(i)] == m[size_t(k)][size_t(r.start)]);
      if(split && k >= 0)
      {
        auto & e = ends[size_t(k)];
        EXPECT_VP(e.count(r.start) && e.count(r.start + r.dim), "split pieces have no boundary of their own", os.str());
        if(onlyAdd[size_t(k)])
          for(int b : e) EXPECT_VP(!(r.start < b && b < r.start + r.dim), "parts not added at the same time are separated", os.str());
      }
    }
    int cov = 0, mx = 0;
    for(auto & mm : m)
      for(int x : mm)
      {
        cov += x > 0;
        mx = std::max(mx, x);
      }
    if(!split)
      EXPECT_VP(got == merged(), "variables() covers exactly the parts still present", os.str());
    else
      EXPECT_VP(ok && tot == cov, "split variables() covers exactly the parts still present, by multiplicity", os.str());
    EXPECT_VP(v.totalSize() == cov, "total size", os.str());
    EXPECT_VP(c.isDisjointUnion() == (mx <= 1), "isDisjointUnion", c.isDisjointUnion());
    if(!split)
    {
      auto s = c.simple();
      EXPECT_VP(s.size() == size_t(v.numberOfVariables()), "simple() mirrors variables()", s.size());
      for(int i = 0; i < v.numberOfVariables() && i < int(s.size()); ++i)
        if(s[size_t(i)])
        {
          Range r = v[i]->subvariableRange();
          EXPECT_VP(addedSince[size_t(supOf(*v[i]))].count({r.start, r.dim}), "a simple piece stems from a single addition", os.str() << " " << i);
        }
    }
  }
  void clear()
  {
    h += "clear ";
    c.clear();
    for(auto & mm : m) std::fill(mm.begin(), mm.end(), 0);
    for(auto & a : addedSince) a.clear();
    for(auto & e : ends) e.clear();
    std::fill(onlyAdd.begin(), onlyAdd.end(), true);
  }
};

SECTION("random histories", 3)
{
  World w;
  while(vp::more())
  {
    Sim s(w, vp::rnd(0, 1));
    int nsup = vp::rnd(1, int(w.sup.size()));
    std::set<int> use;
    for(int i = 0; i < nsup; ++i) use.insert(vp::rnd(0, int(w.sup.size()) - 1));
    std::vector<size_t> cand;
    for(size_t i = 0; i < w.parts.size(); ++i)
      if(use.count(w.parts[i].sup)) cand.push_back(i);
    std::vector<size_t> in;
    int n = vp::rnd(1, 14);
    for(int i = 0; i < n; ++i)
    {
      int k = vp::rnd(0, 11);
      size_t p = cand[size_t(vp::rnd(0, int(cand.size()) - 1))];
      if(k < 6)
      {
        s.add(w.parts[p]);
        in.push_back(p);
      }
      else if(k < 9 && !in.empty())
      {
        size_t j = size_t(vp::rnd(0, int(in.size()) - 1));
        s.remove(w.parts[in[j]]);
        in.erase(in.begin() + long(j));
      }
      else if(k < 11)
        s.remove(w.parts[p]);
      else if(vp::rnd(0, 3) == 0)
      {
        s.clear();
        in.clear();
      }
      if(vp::rnd(0, 1)) s.query();
    }
    s.query();
  }
}

SECTION("many pieces", 1)
{
  // islands made of one or two additions, within, before or after an addition and removal of a part covering them
  for(int n = 1; n <= 26; ++n)
    for(int mask = 0; mask < 8; ++mask)
    {
      if(!vp::more()) return;
      Long w(4 * n + 2);
      Sim s(w, false);
      Part all = w.part(0, 4 * n + 2);
      auto islands = [&](int mode) {
        for(int i = 0; i < n; ++i)
        {
          s.add(w.part(4 * i + 1, mode ? 2 : 3));
          if(mode) s.add(w.part(4 * i + 2, 2));
        }
      };
      if(mask & 1) s.add(all);
      islands(mask & 2);
      if(mask & 4)
      {
        s.query();
        if(!(mask & 1)) s.add(all);
        s.remove(all);
      }
      else if(mask & 1)
        s.remove(all);
      s.query();
      s.add(w.part(0, 2));
      s.query();
    }
}

SECTION("exhaustive pairs and triples", 2)
{
  World w;
  std::vector<size_t> cx;
  for(size_t i = 0; i < w.parts.size(); ++i)
    if(w.parts[i].sup == 1 || w.parts[i].sup == 2) cx.push_back(i);
  for(bool split : {false, true})
    for(size_t a : cx)
      for(size_t b : cx)
        for(size_t d : cx)
        {
          if(!vp::more()) return;
          if(w.parts[a].sup != w.parts[b].sup || w.parts[b].sup != w.parts[d].sup) continue;
          for(int mask = 0; mask < 4; ++mask)
          {
            Sim s(w, split);
            s.add(w.parts[a]);
            s.query();
            if(mask & 1) s.remove(w.parts[b]);
            else s.add(w.parts[b]);
            s.query();
            if(mask & 2) s.remove(w.parts[d]);
            else s.add(w.parts[d]);
            s.query();
          }
        }
}

SECTION("partition iteration", 1)
{
  World w;
  while(vp::more())
  {
    VariableCountingVector c(true);
    int n = vp::rnd(1, 3);
    std::vector<VariableVector> vs(static_cast<size_t>(n));
    std::string h;
    for(auto & v : vs)
    {
      int k = vp::rnd(1, 4);
      for(int i = 0; i < k; ++i)
      {
        auto & p = w.parts[size_t(vp::rnd(0, int(w.parts.size()) - 1))];
        if(v.intersects(*p.v)) continue;
        v.add(p.v);
        h += p.name + " ";
      }
      h += "| ";
      c.add(v);
    }
    vp::context() = h;
    for(auto & v : vs)
    {
      ++vp::explored();
      tvm::internal::VariableVectorPartition part(v, c);
      std::vector<std::pair<int, int>> got, exp;
      std::vector<VariablePtr> gv;
      for(const auto & x : part) gv.push_back(x);
      size_t j = 0;
      bool ok = true;
      for(const auto & x : v)
      {
        int at = x->subvariableRange().start;
        while(ok && at < x->subvariableRange().end() && j < gv.size())
        {
          ok = gv[j]->superVariable() == x->superVariable() && gv[j]->subvariableRange().start == at && gv[j]->size() > 0;
          at += gv[j]->size();
          ++j;
        }
        ok = ok && at == x->subvariableRange().end();
      }
      EXPECT_VP(ok && j == gv.size(), "iterating a vector by a partition visits each variable's pieces in order", gv.size());
    }
  }
}
