#include "vp.h"
#include <memory>
#include <tvm/Variable.h>
using namespace tvm;

static Space factor(int f)
{
  switch(f)
  {
    case 0: return Space(1);
    case 1: return Space(Space::Type::SO3);
    case 2: return Space(Space::Type::SE3);
    case 3: return Space(2, 3, 3);
    default: return Space(2, 4, 3);
  }
}
struct Base
{
  std::vector<int> f;
  std::vector<VariablePtr> made; // keeps the family alive
  std::vector<std::vector<double>> val; // per derivative order, when it exists
  int r(int a, int b) const { int s = 0; for(int i = a; i < b; ++i) s += factor(f[size_t(i)]).rSize(); return s; }
  int t(int a, int b) const { int s = 0; for(int i = a; i < b; ++i) s += factor(f[size_t(i)]).tSize(); return s; }
  int m(int a, int b) const { int s = 0; for(int i = a; i < b; ++i) s += factor(f[size_t(i)]).size(); return s; }
  Space sp(int a, int b) const
  {
    Space s(0);
    for(int i = a; i < b; ++i) s = i == a ? factor(f[size_t(i)]) : s * factor(f[size_t(i)]);
    return s;
  }
  int size(int n) const { return n == 0 ? r(0, int(f.size())) : t(0, int(f.size())); }
};
struct H
{
  int b, a, e, n; // base, factors [a,e), derivative order
  VariablePtr v;
  int fam; // handles of one family share the base primitive object
};

struct Sim
{
  std::vector<Base> bs;
  std::vector<H> hs;
  std::string h;
  int fams = 0;
  void ensure(int b, int n)
  {
    while(int(bs[size_t(b)].val.size()) <= n) bs[size_t(b)].val.push_back(std::vector<double>(size_t(bs[size_t(b)].size(int(bs[size_t(b)].val.size()))), 0.));
  }
  int start(const H & x) const { return x.n == 0 ? bs[size_t(x.b)].r(0, x.a) : bs[size_t(x.b)].t(0, x.a); }
  int size(const H & x) const { return x.n == 0 ? bs[size_t(x.b)].r(x.a, x.e) : bs[size_t(x.b)].t(x.a, x.e); }
  bool full(const H & x) const { return x.a == 0 && x.e == int(bs[size_t(x.b)].f.size()); }
  std::string nm(const H & x) const { return vp::Msg() << "h" << (&x - hs.data()) << "(b" << x.b << "[" << x.a << "," << x.e << ")d" << x.n << ")"; }
  void newBase()
  {
    Base b;
    int n = vp::rnd(1, 5);
    bool eu = vp::rnd(0, 1);
    for(int i = 0; i < n; ++i) b.f.push_back(eu ? 0 : vp::rnd(0, 4));
    VariablePtr v = b.sp(0, n).createVariable("b");
    bs.push_back(b);
    H x{int(bs.size()) - 1, 0, n, 0, v, fams++};
    ensure(x.b, 0);
    h += vp::Msg() << "b" << x.b << "=new variable of " << n << " factors; ";
    hs.push_back(x);
  }
  bool isSub(const H & x) const { return x.v->isSubvariable(); }
  void checkOne(const H & x)
  {
    std::string c = h + " checking " + nm(x);
    vp::context() = c;
    ++vp::explored();
    const Base & b = bs[size_t(x.b)];
    const Variable & v = *x.v;
    EXPECT_VP(v.size() == size(x) && v.value().size() == size(x), "size", v.size() << " expected " << size(x));
    EXPECT_VP(v.derivativeNumber() == x.n, "derivative order", v.derivativeNumber());
    EXPECT_VP(v.isBasePrimitive() == (x.n == 0), "isBasePrimitive", "");
    EXPECT_VP(v.space() == b.sp(x.a, x.e), "space", v.space().sizeAsString());
    EXPECT_VP(v.spaceShift().size() == b.m(0, x.a) && v.spaceShift().rSize() == b.r(0, x.a) && v.spaceShift().tSize() == b.t(0, x.a), "accumulated shift", v.spaceShift().sizeAsString());
    bool eq = true;
    for(int i = 0; i < size(x) && i < v.size(); ++i) eq = eq && v.value()[i] == b.val[size_t(x.n)][size_t(start(x) + i)];
    EXPECT_VP(eq, "values are those of the segment of the super-variable", v.value().transpose());
    Range r = v.subvariableRange();
    EXPECT_VP(r.start == start(x) && r.dim == size(x), "subvariableRange", r.start << "," << r.dim);
    Range tr = v.tSubvariableRange();
    EXPECT_VP(tr.start == b.t(0, x.a) && tr.dim == b.t(x.a, x.e), "tSubvariableRange", tr.start << "," << tr.dim);
    EXPECT_VP(v.isSuperVariable() == !v.isSubvariable(), "isSuperVariable", "");
    VariablePtr s = v.superVariable();
    VariablePtr s0 = b.made[0];
    VariablePtr se = x.n ? dot(s0, x.n) : s0;
    EXPECT_VP(s == se, "superVariable", "");
    EXPECT_VP(s->isSuperVariableOf(v) == v.isSubvariable(), "isSuperVariableOf", "");
    EXPECT_VP(v.isEuclidean() == (x.n > 0 || b.sp(x.a, x.e).isEuclidean()), "isEuclidean", "");
    // primitives
    VariablePtr bp = v.basePrimitive();
    EXPECT_VP(bp->derivativeNumber() == 0 && (x.n == 0 ? bp.get() == &v : dot(bp, x.n).get() == &v), "base primitive", "");
    auto thr = [&](auto f) {
      try { f(); return false; }
      catch(std::exception &) { return true; }
    };
    if(x.n >= 1)
    {
      VariablePtr p1 = v.primitive<1>();
      EXPECT_VP(p1->derivativeNumber() == x.n - 1 && dot(p1).get() == &v, "primitive", "");
      EXPECT_VP(v.primitive() == p1, "primitive", "");
    }
    else
      EXPECT_VP(thr([&] { auto p = v.primitive<1>(); }), "no primitive of a base primitive", "");
    if(x.n >= 2)
    {
      VariablePtr p2 = v.primitive<2>();
      EXPECT_VP(p2->derivativeNumber() == x.n - 2 && dot(p2, 2).get() == &v, "second primitive", "");
    }
    else
      EXPECT_VP(thr([&] { auto p = v.primitive<2>(); }), "no second primitive below order 2", "");
    if(x.n >= 3) EXPECT_VP(v.primitive<3>()->derivativeNumber() == x.n - 3, "third primitive", "");
  }
  void checkPair(const H & x, const H & y)
  {
    vp::context() = h + " comparing " + nm(x) + " and " + nm(y);
    bool sb = x.b == y.b && x.n == y.n;
    int s1 = start(x), e1 = s1 + size(x), s2 = start(y), e2 = s2 + size(y);
    EXPECT_VP(x.v->contains(*y.v) == (sb && s1 <= s2 && e2 <= e1), "contains", x.v->contains(*y.v));
    EXPECT_VP(x.v->intersects(*y.v) == (sb && std::max(s1, s2) < std::min(e1, e2)), "intersects", x.v->intersects(*y.v));
    EXPECT_VP((*x.v == *y.v) == (sb && s1 == s2 && e1 == e2), "equality", (*x.v == *y.v));
    EXPECT_VP((*x.v != *y.v) == !(*x.v == *y.v), "inequality", "");
    EXPECT_VP(x.v->isDerivativeOf(*y.v) == (x.fam == y.fam && x.n > y.n), "isDerivativeOf", "");
    EXPECT_VP(x.v->isPrimitiveOf(*y.v) == (x.fam == y.fam && x.n < y.n), "isPrimitiveOf", "");
    if(x.fam == y.fam && x.n == y.n) EXPECT_VP(x.v == y.v, "the derivative of an order is unique", "");
  }
  void step()
  {
    int k = vp::rnd(0, 13);
    if(hs.empty() || (k == 0 && bs.size() < 3))
    {
      newBase();
      bs.back().made.push_back(hs.back().v);
      return;
    }
    size_t i = size_t(vp::rnd(0, int(hs.size()) - 1));
    H x = hs[i];
    Base & b = bs[size_t(x.b)];
    if(k <= 3)
    {
      int n = vp::rnd(1, 2);
      h += vp::Msg() << "h" << hs.size() << "=dot(" << nm(hs[i]) << "," << n << "); ";
      vp::context() = h;
      ensure(x.b, x.n + n);
      x.v = dot(x.v, n);
      x.n += n;
      hs.push_back(x);
    }
    else if(k <= 7)
    {
      int a = vp::rnd(x.a, x.e - 1), e = vp::rnd(a + 1, x.e);
      h += vp::Msg() << "h" << hs.size() << "=" << nm(hs[i]) << ".sub[" << a << "," << e << "); ";
      vp::context() = h;
      Space sh = b.sp(x.a, a), sp = b.sp(a, e);
      x.v = vp::rnd(0, 1) ? x.v->subvariable(sp, sh) : x.v->subvariable(sp, "s", sh);
      x.a = a;
      x.e = e;
      x.fam = fams++;
      hs.push_back(x);
    }
    else if(k <= 10)
    {
      int sz = size(x), st = start(x);
      auto & m = b.val[size_t(x.n)];
      int w = vp::rnd(0, 6);
      h += vp::Msg() << "set" << w << " " << nm(hs[i]) << "; ";
      vp::context() = h;
      auto thr = [&](auto f) {
        try { f(); return false; }
        catch(std::exception &) { return true; }
      };
      Eigen::VectorXd u(sz);
      for(int q = 0; q < sz; ++q) u[q] = vp::rndd();
      if(w == 0)
      {
        x.v->set(u);
        for(int q = 0; q < sz; ++q) m[size_t(st + q)] = u[q];
      }
      else if(w == 1)
      {
        int q = vp::rnd(-1, sz);
        bool t = thr([&] { x.v->set(q, 7.5); });
        EXPECT_VP(t == (q < 0 || q >= sz), "element bounds", q);
        if(q >= 0 && q < sz) m[size_t(st + q)] = 7.5;
      }
      else if(w == 2)
      {
        int q = vp::rnd(-1, sz), l = vp::rnd(0, sz), ll = vp::rnd(0, 4) ? l : l + 1;
        Eigen::VectorXd z = Eigen::VectorXd::Constant(ll, vp::rndd());
        bool ok = q >= 0 && q + l <= sz && ll == l;
        bool t = thr([&] { x.v->set(q, l, z); });
        EXPECT_VP(t == !ok, "segment bounds", q << "," << l << "," << ll);
        if(ok) for(int o = 0; o < l; ++o) m[size_t(st + q + o)] = z[o];
      }
      else if(w == 3)
      {
        x.v->setZero();
        for(int q = 0; q < sz; ++q) m[size_t(st + q)] = 0;
      }
      else if(w == 4)
      {
        Eigen::VectorXd z = Eigen::VectorXd::Constant(sz + (vp::rnd(0, 1) && sz > 0 ? -1 : 1), 3);
        EXPECT_VP(thr([&] { x.v->set(z); }), "a value of wrong size is refused", z.size());
      }
      else if(w == 5)
      {
        x.v << u;
        for(int q = 0; q < sz; ++q) m[size_t(st + q)] = u[q];
      }
      else if(sz == 1)
      {
        x.v << 2.5;
        m[size_t(st)] = 2.5;
      }
    }
    else if(k == 11)
    {
      // a sub-variable that does not fit
      Space sp = b.sp(x.a, x.e) * Space(1);
      bool t = false;
      vp::context() = h + " too large a sub-variable of " + nm(hs[i]);
      try { auto q = x.v->subvariable(sp); }
      catch(std::exception &) { t = true; }
      EXPECT_VP(t, "a sub-variable that does not fit is refused", "");
      t = false;
      try { auto q = x.v->subvariable(b.sp(x.a, x.e), Space(1)); }
      catch(std::exception &) { t = true; }
      EXPECT_VP(t, "a sub-variable that does not fit is refused", "");
    }
    else if(k == 12)
    {
      // duplicates are independent
      h += vp::Msg() << "b" << bs.size() << "=duplicate " << nm(hs[i]) << "; ";
      vp::context() = h;
      VariablePtr d = vp::rnd(0, 1) ? x.v->duplicate() : x.v->duplicate("d");
      EXPECT_VP(!d->isSubvariable() && d->derivativeNumber() == x.n && d->value() == x.v->value(), "duplicate", d->value().transpose());
      if(bs.size() < 4)
      {
        Base nb;
        nb.f.assign(b.f.begin() + x.a, b.f.begin() + x.e);
        std::vector<double> vals(d->value().data(), d->value().data() + d->size());
        bs.push_back(nb);
        int n = x.n, sz = x.e - x.a;
        ensure(int(bs.size()) - 1, n);
        bs.back().val[size_t(n)] = vals;
        bs.back().made.push_back(d->basePrimitive());
        hs.push_back({int(bs.size()) - 1, 0, sz, n, d, fams++});
      }
    }
    else if(hs.size() > 3)
    {
      // drop a handle: nothing else may be affected
      h += vp::Msg() << "drop " << nm(hs[i]) << "; ";
      vp::context() = h;
      hs[i] = hs.back();
      h += vp::Msg() << "(h" << hs.size() - 1 << " is now h" << i << ") ";
      hs.pop_back();
    }
  }
};

SECTION("random histories", 4)
{
  while(vp::more())
  {
    Sim s;
    int n = vp::rnd(2, 16);
    for(int i = 0; i < n; ++i) s.step();
    for(auto & x : s.hs) s.checkOne(x);
    for(auto & x : s.hs)
      for(auto & y : s.hs) s.checkPair(x, y);
    for(auto & x : s.hs) s.checkOne(x);
  }
}

SECTION("lifetime", 1)
{
  // a variable obtained from another one stays valid on its own
  while(vp::more())
  {
    ++vp::explored();
    VariablePtr x = Space(4).createVariable("x");
    x->set(Eigen::Vector4d(1, 2, 3, 4));
    int k = vp::rnd(0, 5);
    vp::context() = vp::Msg() << "variable kept from a temporary sub-variable or derivative, case " << k;
    VariablePtr p;
    if(k == 0) p = dot(x->subvariable(Space(2), Space(1)))->basePrimitive();
    if(k == 1) p = dot(x->subvariable(Space(2), Space(1)), 2)->primitive<2>();
    if(k == 2) p = dot(x->subvariable(Space(2), Space(1)), 2)->primitive<1>();
    if(k == 3) p = x->subvariable(Space(3))->subvariable(Space(2), Space(1));
    if(k == 4) p = dot(x)->subvariable(Space(2), Space(1));
    if(k == 5) p = x->subvariable(Space(3), Space(1))->superVariable();
    x.reset();
    // reuse the freed memory, if any
    std::vector<std::unique_ptr<char[]>> fill;
    for(int i = 0; i < 20; ++i) { fill.emplace_back(new char[sizeof(Variable) + size_t(16 * i)]); std::memset(fill.back().get(), 0x5a, sizeof(Variable)); }
    EXPECT_VP(p->size() == (k == 5 ? 4 : 2), "size of a variable kept alone", p->size());
    if(k == 0 || k == 1 || k == 3) EXPECT_VP(p->value() == Eigen::Vector2d(2, 3), "value of a variable kept alone", p->value().transpose());
  }
}
