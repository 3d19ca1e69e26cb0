#include "vp.h"
#include <tvm/internal/RangeCounting.h>
using tvm::Range;
using tvm::internal::RangeCounting;

static std::string str(const std::vector<Range> & v)
{
  std::ostringstream o;
  for(auto & r : v) o << "[" << r.start << "," << r.start + r.dim << ")";
  return o.str();
}

struct Sim
{
  static const int N = 24, O = 8;
  RangeCounting c;
  int m[N] = {0};
  std::set<int> ends;       // endpoints of every range given
  bool onlyAdd = true;
  std::string h;

  std::vector<Range> merged() const
  {
    std::vector<Range> r;
    for(int i = 0; i < N; ++i)
      if(m[i] > 0 && (i == 0 || m[i - 1] == 0))
      {
        int j = i;
        while(j < N && m[j] > 0) ++j;
        r.push_back(Range(i - O, j - i));
      }
    return r;
  }
  void op(bool add, int s, int d, bool quiet = false)
  {
    h += vp::Msg() << (add ? "add(" : "remove(") << s << "," << d << ") ";
    vp::context() = h;
    auto before = merged();
    bool legal = true;
    if(!add)
      for(int i = s; i < s + d; ++i) legal = legal && m[i + O] > 0;
    bool ret = false, threw = false;
    try
    {
      ret = add ? c.add(Range(s, d)) : c.remove(Range(s, d));
    }
    catch(std::exception &)
    {
      threw = true;
    }
    ++vp::explored();
    EXPECT_VP(threw == !legal, legal ? "a legal operation is accepted" : "removing what is not covered is refused", "");
    if(legal)
    {
      for(int i = s; i < s + d; ++i) m[i + O] += add ? 1 : -1;
      if(d > 0)
      {
        ends.insert(s);
        ends.insert(s + d);
      }
      if(!add) onlyAdd = false;
      if(!threw) EXPECT_VP(ret == !(str(before) == str(merged())), "a change is reported exactly when the merged output changed", "returned " << ret);
    }
    if(!quiet) { query(vp::rnd(0, 1)); if(vp::rnd(0, 1)) query(vp::rnd(0, 1)); }
  }
  void query(bool split)
  {
    h += split ? "ranges(true) " : "ranges(false) ";
    vp::context() = h;
    const auto r = c.ranges(split);
    auto e = merged();
    int mx = 0;
    for(int i = 0; i < N; ++i) mx = std::max(mx, m[i]);
    EXPECT_VP(c.maxCount() == mx, "maximum count", c.maxCount() << " expected " << mx);
    EXPECT_VP(c.empty() == e.empty(), "empty", "");
    if(!split)
    {
      EXPECT_VP(str(r) == str(e), "merged output is exact", str(r) << " expected " << str(e));
      return;
    }
    // partition with constant multiplicity on each piece
    bool ok = true;
    int cover = 0, tot = 0;
    for(auto & x : e) tot += x.dim;
    int last = -O - 1;
    for(auto & x : r)
    {
      ok = ok && x.dim > 0 && x.start >= last;
      last = x.start + x.dim;
      for(int i = x.start; ok && i < x.start + x.dim; ++i) ok = i + O >= 0 && i + O < N && m[i + O] > 0 && m[i + O] == m[x.start + O];
      cover += x.dim;
    }
    EXPECT_VP(ok && cover == tot, "split output partitions the covered indices by multiplicity", str(r));
    for(auto & x : r)
      EXPECT_VP(ends.count(x.start) && ends.count(x.start + x.dim), "split output has no boundary of its own", str(r));
    if(onlyAdd && ok && cover == tot)
      for(auto & x : r)
        for(int b : ends) EXPECT_VP(!(x.start < b && b < x.start + x.dim), "touching ranges are kept separate", str(r) << " at " << b);
  }
};

SECTION("exhaustive histories", 3)
{
  // every history of k operations on ranges within 0..W-1
  for(auto kw : std::vector<std::pair<int, int>>{{2, 5}, {3, 4}, {4, 3}, {5, 2}, {3, 5}, {4, 4}})
  {
    int k = kw.first, W = kw.second;
    std::vector<std::pair<int, int>> rs;
    for(int s = 0; s < W; ++s)
      for(int d = 1; s + d <= W; ++d) rs.push_back({s, d});
    int nb = 2 * int(rs.size());
    long tot = 1;
    for(int i = 0; i < k; ++i) tot *= nb;
    long stride = tot > 60000 && !vp::thorough ? tot / 30000 | 1 : 1;
    for(long q = stride > 1 ? vp::rnd(0, int(stride) - 1) : 0; q < tot && vp::more(); q += stride)
    {
      Sim s;
      long x = q;
      for(int i = 0; i < k; ++i, x /= nb)
      {
        int o = int(x % nb);
        s.op(o < nb / 2, rs[size_t(o % (nb / 2))].first, rs[size_t(o % (nb / 2))].second, i + 1 < k && (q & 1));
      }
      s.query(false);
      s.query(true);
      s.query(false);
    }
  }
}

SECTION("random histories", 3)
{
  while(vp::more())
  {
    Sim s;
    int W = vp::rnd(3, 12), n = vp::rnd(3, 25);
    std::vector<std::pair<int, int>> in;
    for(int i = 0; i < n; ++i)
    {
      int k = vp::rnd(0, 9);
      int a = vp::rnd(-4, W - 2), d = vp::rnd(0, W - a);
      if(a + d > 14) d = 14 - a;
      if(k < 5)
      {
        s.op(true, a, d);
        in.push_back({a, d});
      }
      else if(k < 8 && !in.empty())
      {
        size_t j = size_t(vp::rnd(0, int(in.size()) - 1));
        s.op(false, in[j].first, in[j].second);
        in.erase(in.begin() + long(j));
      }
      else
        s.op(false, a, d);
    }
    s.query(true);
    s.query(false);
    // emptying completely
    while(!s.merged().empty())
    {
      auto r = s.merged()[0];
      s.op(false, r.start, r.dim);
    }
    EXPECT_VP(s.c.empty(), "empty after removing everything", "");
  }
}
