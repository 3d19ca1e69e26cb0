#include "vp.h"
#include <memory>
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
using namespace tvm;

struct V { int b, n, s, d; VariablePtr v; }; // base, order, segment
struct Sim
{
  std::vector<VariablePtr> base;
  std::vector<V> pool;
  std::vector<std::unique_ptr<VariableVector>> vec;
  std::vector<std::vector<V>> mod;
  std::map<std::pair<int, int>, std::vector<double>> val;
  std::string h;

  void push(VariablePtr v)
  {
    for(int b = 0; b < int(base.size()); ++b)
      for(int n = 0; n <= 1; ++n)
        if(v->superVariable() == (n ? dot(base[size_t(b)]) : base[size_t(b)]))
        {
          Range r = v->subvariableRange();
          pool.push_back({b, n, r.start, r.dim, v});
        }
  }
  Sim()
  {
    int nb = vp::rnd(1, 3);
    for(int b = 0; b < nb; ++b)
    {
      base.push_back((vp::rnd(0, 3) ? Space(vp::rnd(1, 4)) : Space(Space::Type::SO3) * Space(2)).createVariable("b"));
      dot(base.back());
      for(int n = 0; n <= 1; ++n)
      {
        VariablePtr s = n ? dot(base.back()) : base.back();
        val[{b, n}].assign(size_t(s->size()), 0.);
        push(s);
        if(base.back()->space().isEuclidean())
        {
          int k = vp::rnd(1, 6);
          for(int i = 0; i < k; ++i)
          {
            int a = vp::rnd(0, s->size() - 1), d = vp::rnd(1, s->size() - a);
            push(s->subvariable(Space(d), Space(a)));
          }
        }
        else
        {
          push(s->subvariable(Space(Space::Type::SO3)));
          push(s->subvariable(Space(2), Space(Space::Type::SO3)));
          push(s->subvariable(Space(1), Space(Space::Type::SO3)));
        }
      }
    }
    int nv = vp::rnd(1, 3);
    vec.resize(size_t(nv));
    mod.resize(size_t(nv));
    for(auto & v : vec) v = std::make_unique<VariableVector>();
  }
  std::string nm(const V & v) const { return vp::Msg() << (v.n ? "d" : "") << "b" << v.b << "[" << v.s << "," << v.s + v.d << ")"; }
  static bool contains(const V & x, const V & y) { return x.b == y.b && x.n == y.n && x.s <= y.s && y.s + y.d <= x.s + x.d; }
  static bool intersects(const V & x, const V & y) { return x.b == y.b && x.n == y.n && std::max(x.s, y.s) < std::min(x.s + x.d, y.s + y.d); }
  static bool same(const V & x, const V & y) { return contains(x, y) && contains(y, x); }
  enum R { ADDED, COVERED, REFUSED };
  R addModel(size_t k, const V & v)
  {
    for(auto & x : mod[k])
      if(contains(x, v)) return COVERED;
    for(auto & x : mod[k])
      if(intersects(x, v)) return REFUSED;
    mod[k].push_back(v);
    return ADDED;
  }
  int size(size_t k) const
  {
    int s = 0;
    for(auto & x : mod[k]) s += x.d;
    return s;
  }
  void check(size_t k, const V & v)
  {
    const VariableVector & z = *vec[k];
    int at = 0, idx = -1, slot = -1, i = 0;
    bool c = false, in = false;
    for(auto & x : mod[k])
    {
      if(contains(x, v))
      {
        c = true;
        slot = at + v.s - x.s;
        if(same(x, v)) idx = i;
      }
      in = in || intersects(x, v);
      at += x.d;
      ++i;
    }
    EXPECT_VP(z.contains(*v.v) == c, "contains", "vector " << k << " " << nm(v));
    EXPECT_VP(z.intersects(*v.v) == in, "intersects", "vector " << k << " " << nm(v));
    EXPECT_VP(z.indexOf(*v.v) == idx, "indexOf", "vector " << k << " " << nm(v) << " gives " << z.indexOf(*v.v) << " expected " << idx);
    for(int w = 0; w < 2; ++w)
    {
      Range r;
      r.start = r.dim = -1;
      bool t = false;
      try { r = w ^ (vp::explored() & 1) ? v.v->getMappingIn(z) : z.getMappingOf(*v.v); }
      catch(std::exception &) { t = true; }
      EXPECT_VP(t == !c, "the slot of a variable exists exactly when it is contained", "vector " << k << " " << nm(v));
      if(c && !t) EXPECT_VP(r.start == slot && r.dim == v.d, "the slot is the concatenation offset", "vector " << k << " " << nm(v) << " gives (" << r.start << "," << r.dim << ") expected start " << slot);
    }
  }
  void checkAll(bool everything)
  {
    vp::context() = h;
    for(size_t k = 0; k < vec.size(); ++k)
    {
      ++vp::explored();
      const VariableVector & z = *vec[k];
      EXPECT_VP(z.totalSize() == size(k), "total size", "vector " << k << " " << z.totalSize() << " expected " << size(k));
      EXPECT_VP(z.numberOfVariables() == int(mod[k].size()), "number of variables", "vector " << k);
      if(z.numberOfVariables() != int(mod[k].size())) continue;
      for(int i = 0; i < z.numberOfVariables(); ++i)
        EXPECT_VP(*z[i] == *mod[k][size_t(i)].v && z.variables()[size_t(i)] == z[i], "order of insertion", "vector " << k << " index " << i);
      int i = 0;
      for(auto & x : z) EXPECT_VP(x == z[i++], "iteration", "");
      if(everything || vp::rnd(0, 2) == 0)
        for(auto & v : pool)
          if(everything || vp::rnd(0, 1)) check(k, v);
      int n = 0;
      bool eq = z.value().size() == size(k);
      const Eigen::VectorXd & zv = z.value();
      for(auto & x : mod[k])
        for(int j = 0; eq && j < x.d; ++j) eq = zv[n++] == val[{x.b, x.n}][size_t(x.s + j)];
      EXPECT_VP(eq, "the concatenated value is that of the members", "vector " << k << " " << z.value().transpose());
    }
    for(auto & v : pool)
      for(int j = 0; j < v.d; ++j)
        if(v.v->value()[j] != val[{v.b, v.n}][size_t(v.s + j)])
        {
          EXPECT_VP(false, "values of the variables", nm(v));
          break;
        }
  }
  void step()
  {
    int op = vp::rnd(0, 19);
    size_t k = size_t(vp::rnd(0, int(vec.size()) - 1)), k2 = size_t(vp::rnd(0, int(vec.size()) - 1));
    const V v = pool[size_t(vp::rnd(0, int(pool.size()) - 1))];
    VariableVector & z = *vec[k];
    if(op < 7)
    {
      h += vp::Msg() << "v" << k << ".add(" << nm(v) << ") ";
      vp::context() = h;
      R r = addModel(k, v);
      bool t = false, res = false;
      try { res = z.add(v.v); }
      catch(std::exception &) { t = true; }
      EXPECT_VP(t == (r == REFUSED), "adding something that partly overlaps is refused", nm(v));
      if(!t) EXPECT_VP(res == (r == ADDED), "add reports whether the variable was added", nm(v));
    }
    else if(op < 8)
    {
      bool ci = vp::rnd(0, 1);
      h += vp::Msg() << "v" << k << ".addAndGetIndex(" << nm(v) << "," << ci << ") ";
      vp::context() = h;
      int exp = int(mod[k].size()), res = -2;
      for(size_t i = 0; i < mod[k].size(); ++i)
        if(contains(mod[k][i], v)) exp = same(mod[k][i], v) || ci ? int(i) : -1;
      R r = addModel(k, v);
      bool t = false;
      try { res = z.addAndGetIndex(v.v, ci); }
      catch(std::exception &) { t = true; }
      EXPECT_VP(t == (r == REFUSED), "adding something that partly overlaps is refused", nm(v));
      if(!t && r != REFUSED) EXPECT_VP(res == exp, "index of the added variable", res << " expected " << exp);
    }
    else if(op < 11)
    {
      h += vp::Msg() << "v" << k << ".remove(" << nm(v) << ") ";
      vp::context() = h;
      bool found = false;
      for(size_t i = 0; i < mod[k].size(); ++i)
        if(same(mod[k][i], v))
        {
          mod[k].erase(mod[k].begin() + long(i));
          found = true;
          break;
        }
      EXPECT_VP(z.remove(*v.v) == found, "remove reports whether the variable was removed", nm(v));
    }
    else if(op < 13)
    {
      int i = vp::rnd(-1, int(mod[k].size()));
      h += vp::Msg() << "v" << k << ".remove(" << i << ") ";
      vp::context() = h;
      bool t = false;
      try { z.remove(i); }
      catch(std::exception &) { t = true; }
      bool ok = i >= 0 && i < int(mod[k].size());
      EXPECT_VP(t == !ok, "index out of range is refused", i);
      if(ok) mod[k].erase(mod[k].begin() + i);
    }
    else if(op == 13)
    {
      h += vp::Msg() << "v" << k << ".clear() ";
      vp::context() = h;
      z.clear();
      mod[k].clear();
    }
    else if(op == 14)
    {
      h += vp::Msg() << "v" << k << "=v" << k2 << " ";
      vp::context() = h;
      z = *vec[k2];
      mod[k] = std::vector<V>(mod[k2]);
    }
    else if(op == 15)
    {
      int w = vp::rnd(0, 2);
      h += vp::Msg() << "v" << k << "=" << (w == 0 ? "copy of v" : w == 1 ? "vector constructed by moving v" : "move of v") << k2 << " ";
      vp::context() = h;
      if(k == k2) return;
      if(w == 0) vec[k] = std::make_unique<VariableVector>(static_cast<const VariableVector &>(*vec[k2]));
      else
      {
        if(w == 1) vec[k] = std::make_unique<VariableVector>(std::move(*vec[k2]));
        else *vec[k] = std::move(*vec[k2]);
        mod[k] = mod[k2];
        mod[k2].clear();
        vec[k2] = std::make_unique<VariableVector>();
        return;
      }
      mod[k] = mod[k2];
    }
    else if(op == 16)
    {
      h += vp::Msg() << "v" << k << ".set ";
      vp::context() = h;
      Eigen::VectorXd u(size(k));
      for(int i = 0; i < u.size(); ++i) u[i] = vp::rndd();
      z.set(u);
      int n = 0;
      for(auto & x : mod[k])
        for(int j = 0; j < x.d; ++j) val[{x.b, x.n}][size_t(x.s + j)] = u[n++];
    }
    else if(op == 17)
    {
      Eigen::VectorXd u(v.d);
      for(int i = 0; i < u.size(); ++i) u[i] = val[{v.b, v.n}][size_t(v.s + i)] = vp::rndd();
      h += nm(v) + ".set ";
      vp::context() = h;
      v.v->set(u);
      if(vp::rnd(0, 3) == 0)
      {
        h += vp::Msg() << "v" << k << ".setZero ";
        z.setZero();
        for(auto & x : mod[k])
          for(int j = 0; j < x.d; ++j) val[{x.b, x.n}][size_t(x.s + j)] = 0;
      }
    }
    else if(op == 18)
    {
      bool viaStd = vp::rnd(0, 1);
      h += vp::Msg() << "v" << k << ".add(" << (viaStd ? "variables of v" : "v") << k2 << ") ";
      vp::context() = h;
      if(k == k2) return;
      bool ref = false;
      for(auto & x : mod[k2])
        if(addModel(k, x) == REFUSED)
        {
          ref = true;
          break;
        }
      bool t = false;
      try
      {
        if(viaStd) z.add(vec[k2]->variables());
        else z.add(*vec[k2]);
      }
      catch(std::exception &) { t = true; }
      EXPECT_VP(t == ref, "adding something that partly overlaps is refused", "vector");
    }
    else
    {
      // a new, equal, object for the same segment
      h += "new object for " + nm(v) + " ";
      V w = v;
      if(base[size_t(v.b)]->space().isEuclidean())
      {
        VariablePtr s = v.n ? dot(base[size_t(v.b)]) : base[size_t(v.b)];
        w.v = s->subvariable(Space(v.d), Space(v.s));
        pool.push_back(w);
      }
    }
    EXPECT_VP(vec[k]->totalSize() == size(k), "total size", "vector " << k);
  }
};

SECTION("random histories", 5)
{
  while(vp::more())
  {
    Sim s;
    int n = vp::rnd(2, 30);
    for(int i = 0; i < n; ++i)
    {
      s.step();
      if(vp::rnd(0, 2) == 0) s.checkAll(false);
    }
    s.checkAll(true);
    s.checkAll(true);
  }
}

SECTION("derivatives of a vector", 1)
{
  while(vp::more())
  {
    ++vp::explored();
    VariablePtr x = Space(3).createVariable("x"), y = Space(2).createVariable("y");
    VariableVector v(x->subvariable(Space(2)), y, x->subvariable(Space(1), Space(2)));
    int n = vp::rnd(1, 3);
    vp::context() = vp::Msg() << "dot(v," << n << ")";
    VariableVector d = dot(v, n);
    EXPECT_VP(d.numberOfVariables() == 3 && d.totalSize() == 5, "dot of a vector", d.totalSize());
    for(int i = 0; i < 3; ++i) EXPECT_VP(d[i] == dot(v[i], n), "dot of a vector", i);
    EXPECT_VP(dot(x, n)->contains(*d[0]) && d[2]->getMappingIn(d).start == 4, "dot of a vector", "");
  }
}
