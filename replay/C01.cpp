#include "vp.h"
#include <tvm/Range.h>
using tvm::Range;

static bool in(const Range & r, int i) { return r.start <= i && i < r.start + r.dim; }

SECTION("ranges", 1)
{
  int N = vp::thorough ? 7 : 5;
  for(int s = -N; s <= N && vp::more(); ++s)
    for(int d = 0; d <= N; ++d)
    {
      Range a(s, d);
      vp::context() = vp::Msg() << "Range(" << s << "," << d << ")";
      EXPECT_VP(a.start == s && a.dim == d, "constructor", a.start << "," << a.dim);
      EXPECT_VP(a.end() == s + d, "end", a.end());
      for(int i = -3 * N; i <= 3 * N; ++i) EXPECT_VP(a.contains(i) == in(a, i), "contains(int)", i);
      for(int k = -N; k <= N; ++k)
      {
        EXPECT_VP((a + k).start == s + k && (a + k).dim == d, "operator+", k);
        EXPECT_VP((a - k).start == s - k && (a - k).dim == d, "operator-", k);
      }
      for(int t = -N; t <= N; ++t)
        for(int e = 0; e <= N; ++e)
        {
          Range b(t, e);
          ++vp::explored();
          bool all = in(a, t), some = false;
          for(int i = -3 * N; i <= 3 * N; ++i)
          {
            if(in(b, i) && !in(a, i)) all = false;
            if(in(b, i) && in(a, i)) some = true;
          }
          auto m = [&] { return std::string(vp::Msg() << "and Range(" << t << "," << e << ")"); };
          EXPECT_VP(a.contains(b) == all, "contains(Range)", m());
          if(d > 0 && e > 0) EXPECT_VP(a.intersects(b) == some, "intersects", m());
          EXPECT_VP((a == b) == (s == t && d == e), "operator==", m());
          EXPECT_VP((a != b) == !(s == t && d == e), "operator!=", m());
          if(all)
          {
            Range q = a.relativeRange(b);
            for(int i = -3 * N; i <= 3 * N; ++i)
              EXPECT_VP(in(b, i) == in(q, i - s), "relativeRange", m());
            EXPECT_VP(q.dim == e, "relativeRange", m());
          }
        }
    }
  // large values
  for(int n = 0; n < 20000 && vp::more(); ++n)
  {
    Range a(vp::rnd(-100000000, 100000000), vp::rnd(0, 100000000)), b(a.start + vp::rnd(-100000000, 100000000), vp::rnd(0, 100000000));
    vp::context() = vp::Msg() << "Range(" << a.start << "," << a.dim << ") Range(" << b.start << "," << b.dim << ")";
    ++vp::explored();
    long as = a.start, ae = as + a.dim, bs = b.start, be = bs + b.dim;
    EXPECT_VP(a.contains(b) == (as <= bs && bs < ae && be <= ae), "contains(Range)", "");
    if(a.dim && b.dim) EXPECT_VP(a.intersects(b) == (bs < ae && as < be), "intersects", "");
  }
}
