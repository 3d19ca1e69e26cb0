#include "vp.h"
#include <tvm/Space.h>
#include <tvm/Variable.h>
using tvm::Space;

struct Exp
{
  Space s;
  int m, r, t;
  Space::Type ty;
};

static void check(const Exp & e)
{
  ++vp::explored();
  EXPECT_VP(e.s.size() == e.m && e.s.rSize() == e.r && e.s.tSize() == e.t, "dimensions", e.s.sizeAsString());
  EXPECT_VP(e.s.type() == e.ty, "type", int(e.s.type()));
  EXPECT_VP(e.s.isEuclidean() == (e.m == e.r && e.m == e.t), "isEuclidean", e.s.sizeAsString());
  EXPECT_VP(e.s.isEuclidean() == (e.ty == Space::Type::Euclidean), "isEuclidean", e.s.sizeAsString());
}

SECTION("spaces", 1)
{
  int N = vp::thorough ? 6 : 4;
  std::vector<Exp> all;
  auto ty = [](int m, int r, int t) { return m == r && m == t ? Space::Type::Euclidean : Space::Type::Unspecified; };
  for(int m = 0; m <= N; ++m)
  {
    vp::context() = vp::Msg() << "Space(" << m << ")";
    all.push_back({Space(m), m, m, m, Space::Type::Euclidean});
    check(all.back());
    all.push_back({Space(Space::Type::Euclidean, m), m, m, m, Space::Type::Euclidean});
    check(all.back());
    for(int r = m; r <= N; ++r)
    {
      vp::context() = vp::Msg() << "Space(" << m << "," << r << ")";
      all.push_back({Space(m, r), m, r, m, ty(m, r, m)});
      check(all.back());
      for(int t = m; t <= N; ++t)
      {
        vp::context() = vp::Msg() << "Space(" << m << "," << r << "," << t << ")";
        all.push_back({Space(m, r, t), m, r, t, ty(m, r, t)});
        check(all.back());
      }
    }
  }
  vp::context() = "SO3";
  all.push_back({Space(Space::Type::SO3), 3, 4, 3, Space::Type::SO3});
  check(all.back());
  vp::context() = "SE3";
  all.push_back({Space(Space::Type::SE3), 6, 7, 6, Space::Type::SE3});
  check(all.back());
  bool refused = false;
  try
  {
    Space s(Space::Type::Unspecified);
  }
  catch(std::exception &)
  {
    refused = true;
  }
  EXPECT_VP(refused, "unspecified type refused", "");
  // shapes sharing a tangent size but not another dimension, and products of products
  all.push_back({Space(3, 4, 3), 3, 4, 3, Space::Type::Unspecified});
  all.push_back({Space(6, 7, 6), 6, 7, 6, Space::Type::Unspecified});
  for(int n = 0; n < 20; ++n)
  {
    const Exp & a = all[size_t(vp::rnd(0, int(all.size()) - 1))];
    const Exp & b = all[size_t(vp::rnd(0, int(all.size()) - 1))];
    bool e = a.m == a.r && a.m == a.t && b.m == b.r && b.m == b.t;
    all.push_back({a.s * b.s, a.m + b.m, a.r + b.r, a.t + b.t, e ? Space::Type::Euclidean : Space::Type::Unspecified});
    check(all.back());
  }
  for(const auto & a : all)
    for(const auto & b : all)
    {
      vp::context() = vp::Msg() << a.s.sizeAsString() << " type " << int(a.ty) << " and " << b.s.sizeAsString() << " type " << int(b.ty);
      bool e = a.m == a.r && a.m == a.t && b.m == b.r && b.m == b.t;
      check({a.s * b.s, a.m + b.m, a.r + b.r, a.t + b.t, e ? Space::Type::Euclidean : Space::Type::Unspecified});
      bool same = a.m == b.m && a.r == b.r && a.t == b.t && a.ty == b.ty;
      EXPECT_VP((a.s == b.s) == same, "operator==", "");
      EXPECT_VP((a.s != b.s) == !same, "operator!=", "");
      EXPECT_VP((a.s <= b.s) == (a.m <= b.m && a.r <= b.r && a.t <= b.t), "operator<=", "");
    }
  for(const auto & a : all)
  {
    vp::context() = a.s.sizeAsString();
    auto v = a.s.createVariable("v");
    EXPECT_VP(v->space() == a.s && v->size() == a.r, "variable of the space", "");
    auto d = tvm::dot(tvm::VariablePtr(std::move(v)));
    EXPECT_VP(d->size() == a.t, "derivative has the tangent size", "");
  }
}
