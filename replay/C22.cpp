#include "vp.h"
#include <tvm/Clock.h>
#include <tvm/geometry/Plane.h>
#include <tvm/internal/ObjWithId.h>
#include <algorithm>
#include <memory>
#include <thread>
using namespace tvm;
using Eigen::Vector3d;

struct Obj : public tvm::internal::ObjWithId
{
};

SECTION("identifiers", 1)
{
  std::set<int> given;
  std::vector<std::unique_ptr<Obj>> o;
  std::vector<int> exp;
  for(int n = 0; n < 4000 && vp::more(); ++n)
  {
    ++vp::explored();
    int c = vp::rnd(0, 5);
    if(c <= 2 || o.size() < 3)
    {
      o.emplace_back(new Obj());
      int i = o.back()->id();
      vp::context() = vp::Msg() << "step " << n << ": new object, id " << i;
      EXPECT_VP(i >= 0 && given.insert(i).second, "new identifier is fresh", "");
      exp.push_back(i);
    }
    else if(c == 3)
    {
      size_t k = size_t(vp::rnd(0, int(o.size()) - 1));
      vp::context() = vp::Msg() << "step " << n << ": move construction from id " << exp[k];
      o.emplace_back(new Obj(std::move(*o[k])));
      exp.push_back(exp[k]);
      exp[k] = -1;
    }
    else if(c == 4)
    {
      size_t k = size_t(vp::rnd(0, int(o.size()) - 1)), l = size_t(vp::rnd(0, int(o.size()) - 1));
      if(k == l) continue;
      vp::context() = vp::Msg() << "step " << n << ": move assignment id " << exp[k] << " <- id " << exp[l];
      *o[k] = std::move(*o[l]);
      exp[k] = exp[l];
      exp[l] = -1;
    }
    else
    {
      size_t k = size_t(vp::rnd(0, int(o.size()) - 1));
      o.erase(o.begin() + long(k));
      exp.erase(exp.begin() + long(k));
    }
    for(size_t k = 0; k < o.size(); ++k) EXPECT_VP(o[k]->id() == exp[k], "identifier kept or transferred", "object " << k << " expected " << exp[k] << " got " << o[k]->id());
  }
}

SECTION("concurrent identifiers", 1)
{
  for(int rep = 0; rep < (vp::thorough ? 50 : 5) && vp::more(); ++rep)
  {
    std::vector<std::vector<int>> r(4);
    std::vector<std::thread> t;
    for(int k = 0; k < 4; ++k)
      t.emplace_back([&r, k] {
        for(int i = 0; i < 20000; ++i) r[size_t(k)].push_back(Obj().id());
      });
    for(auto & x : t) x.join();
    std::vector<int> all;
    for(auto & x : r) all.insert(all.end(), x.begin(), x.end());
    std::sort(all.begin(), all.end());
    vp::explored() += long(all.size());
    vp::context() = "4 threads creating 20000 objects each";
    EXPECT_VP(std::adjacent_find(all.begin(), all.end()) == all.end(), "concurrent identifiers are distinct", "");
  }
}

SECTION("clock", 0.3)
{
  for(double dt : {0.001, 0.5, 2.0})
  {
    Clock c(dt);
    EXPECT_VP(c.ticks() == 0, "clock starts at 0", dt);
    for(uint64_t k = 1; k < 2000; ++k)
    {
      c.advance();
      ++vp::explored();
      EXPECT_VP(c.ticks() == k && c.dt() == dt, "clock counts its advances", "after " << k << " advances: " << c.ticks());
    }
  }
}

static Vector3d rv() { return Vector3d(vp::rndd(), vp::rndd(), vp::rndd()); }

SECTION("plane", 1)
{
  for(int n = 0; n < 3000 && vp::more(); ++n)
  {
    Vector3d nn = rv(), pt = rv(), nd = Vector3d::Zero(), sp = nd, ndd = nd, ac = nd;
    double off = vp::rndd();
    bool byPoint = vp::rnd(0, 1);
    std::unique_ptr<geometry::Plane> p;
    std::ostringstream h;
    if(byPoint)
    {
      p.reset(new geometry::Plane(nn, pt));
      off = -nn.dot(pt);
      h << "Plane(n,point)";
    }
    else
    {
      p.reset(new geometry::Plane(nn, off));
      h << "Plane(n,offset)";
    }
    for(int k = 0; k < 6; ++k)
    {
      ++vp::explored();
      vp::context() = vp::Msg() << h.str() << " n=" << nn.transpose() << " offset=" << off << " point=" << pt.transpose();
      EXPECT_VP(p->normal() == nn, "plane normal", p->normal().transpose());
      EXPECT_VP(std::abs(p->offset() - off) < 1e-12, "plane offset", p->offset());
      if(byPoint)
      {
        EXPECT_VP(p->point() == pt, "plane point", p->point().transpose());
        EXPECT_VP(std::abs(p->normal().dot(pt) + p->offset()) < 1e-12, "plane contains the point", p->offset());
      }
      EXPECT_VP(p->normalDot() == nd && p->speed() == sp, "plane velocity", p->normalDot().transpose() << " / " << p->speed().transpose());
      EXPECT_VP(p->normalDotDot() == ndd && p->acceleration() == ac, "plane acceleration", p->normalDotDot().transpose() << " / " << p->acceleration().transpose());
      switch(vp::rnd(0, 3))
      {
        case 0:
          nn = rv();
          pt = rv();
          byPoint = true;
          off = -nn.dot(pt);
          p->position(nn, pt);
          h << " position(n,point)";
          break;
        case 1:
          nn = rv();
          off = vp::rndd();
          byPoint = false;
          p->position(nn, off);
          h << " position(n,offset)";
          break;
        case 2:
          nd = rv();
          sp = rv();
          p->velocity(nd, sp);
          h << " velocity";
          break;
        default:
          ndd = rv();
          ac = rv();
          p->acceleration(ndd, ac);
          h << " acceleration";
      }
    }
  }
}
