#include "vp.h"
#include <tvm/internal/CallbackManager.h>
#include <tvm/internal/PairElementToken.h>
#include <memory>
using tvm::internal::CallbackManager;
using tvm::internal::PairElementToken;
using tvm::internal::PairElementTokenHandle;

// ------------------------------------------------------------------ tokens against a partial matching
struct Tokens
{
  std::vector<std::unique_ptr<PairElementToken>> t;
  std::vector<int> id;          // identity of the pairing end held by each slot
  std::map<const PairElementToken *, const PairElementToken *> partner; // reference
  std::string h;

  void set(const PairElementToken * a, const PairElementToken * b)
  {
    if(a) partner[a] = b;
    if(b) partner[b] = a;
  }
  const PairElementToken * get(const PairElementToken * a) const
  {
    auto it = partner.find(a);
    return it == partner.end() ? nullptr : it->second;
  }
  void unpair(const PairElementToken * a)
  {
    if(auto p = get(a)) partner[p] = nullptr;
    partner[a] = nullptr;
  }
  void check()
  {
    vp::context() = h;
    for(auto & a : t)
    {
      auto e = get(a.get());
      EXPECT_VP(a->isPaired() == (e != nullptr), "isPaired", "");
      for(auto & b : t)
        EXPECT_VP(a->isPairedWith(*b) == (e == b.get()), "isPairedWith", "");
      if(e && a->isPaired())
      {
        EXPECT_VP(&a->otherPairElement() == e, "otherPairElement", "");
        EXPECT_VP(e->isPairedWith(*a), "pairing is mutual", "");
      }
      if(!e)
      {
        bool thrown = false;
        try
        {
          a->otherPairElement();
        }
        catch(std::runtime_error &)
        {
          thrown = true;
        }
        EXPECT_VP(thrown || a->isPaired(), "otherPairElement of an unpaired token is refused", "");
      }
    }
  }
  void step()
  {
    int n = int(t.size());
    int c = vp::rnd(0, 7);
    int i = n ? vp::rnd(0, n - 1) : 0, j = n ? vp::rnd(0, n - 1) : 0;
    std::ostringstream o;
    if(c == 0 || n < 2)
    {
      t.emplace_back(new PairElementToken());
      o << " new";
    }
    else if(c == 1)
    {
      if(i == j) return;
      bool ok = !get(t[size_t(i)].get()) && !get(t[size_t(j)].get()), thrown = false;
      o << " " << i << ".pairWith(" << j << ")";
      try
      {
        t[size_t(i)]->pairWith(*t[size_t(j)]);
      }
      catch(std::runtime_error &)
      {
        thrown = true;
      }
      EXPECT_VP(thrown == !ok, "pairing an already paired token is refused", h << o.str());
      if(ok) set(t[size_t(i)].get(), t[size_t(j)].get());
    }
    else if(c == 2)
    {
      o << " new(move " << i << ")";
      auto p = get(t[size_t(i)].get());
      t.emplace_back(new PairElementToken(std::move(*t[size_t(i)])));
      partner[t[size_t(i)].get()] = nullptr;
      set(t.back().get(), p);
    }
    else if(c == 3)
    {
      o << " " << i << "=move(" << j << ")";
      auto a = t[size_t(i)].get(), b = t[size_t(j)].get();
      auto p = get(b);
      *t[size_t(i)] = std::move(*t[size_t(j)]);
      if(a == b || p == a)
      {
        unpair(a);
        unpair(b);
      }
      else
      {
        unpair(a);
        partner[b] = nullptr;
        set(a, p);
      }
    }
    else if(c == 4)
    {
      o << " delete " << i;
      unpair(t[size_t(i)].get());
      partner.erase(t[size_t(i)].get());
      t.erase(t.begin() + i);
    }
    else if(c == 5)
    {
      if(get(t[size_t(i)].get())) return;
      o << " new(handle " << i << ")";
      t.emplace_back(new PairElementToken(PairElementTokenHandle(*t[size_t(i)])));
      set(t[size_t(i)].get(), t.back().get());
    }
    else if(c == 6)
    {
      if(get(t[size_t(i)].get()) || i == j) return;
      o << " " << j << "=handle(" << i << ")";
      *t[size_t(j)] = PairElementTokenHandle(*t[size_t(i)]);
      unpair(t[size_t(j)].get());
      set(t[size_t(i)].get(), t[size_t(j)].get());
    }
    else
    {
      if(t.size() > 6) return;
      // relocation of a whole container of tokens
      o << " relocate";
      std::vector<PairElementToken> v;
      for(auto & x : t) v.push_back(std::move(*x));
      std::vector<PairElementToken> w;
      for(auto & x : v) w.push_back(std::move(x));
      for(size_t k = 0; k < w.size(); ++k) *t[k] = std::move(w[k]);
    }
    h += o.str();
    check();
  }
};

SECTION("tokens", 1)
{
  while(vp::more())
  {
    Tokens k;
    int L = vp::rnd(2, 40);
    for(int n = 0; n < L; ++n)
    {
      k.step();
      ++vp::explored();
      if(!vp::failed().empty()) break;
    }
    while(!k.t.empty()) k.t.erase(k.t.begin() + vp::rnd(0, int(k.t.size()) - 1));
    if(vp::failed().size() > 4) return;
  }
}

// all short histories on three tokens
static void exhaust(std::vector<int> & ops, int depth)
{
  if(!vp::more() || vp::failed().size() > 4) return;
  if(depth == 0)
  {
    ++vp::explored();
    Tokens k;
    for(int i = 0; i < 3; ++i) k.t.emplace_back(new PairElementToken());
    for(int o : ops)
    {
      int i = (o / 3) % 3, j = o % 3, c = o / 9;
      auto a = k.t[size_t(i)].get(), b = k.t[size_t(j)].get();
      std::ostringstream s;
      if(c == 0)
      {
        if(i == j) return;
        bool ok = !k.get(a) && !k.get(b), thrown = false;
        s << " " << i << ".pairWith(" << j << ")";
        try
        {
          a->pairWith(*b);
        }
        catch(std::runtime_error &)
        {
          thrown = true;
        }
        EXPECT_VP(thrown == !ok, "pairing an already paired token is refused", k.h << s.str());
        if(ok) k.set(a, b);
      }
      else if(c == 1)
      {
        s << " " << i << "=move(" << j << ")";
        auto p = k.get(b);
        *a = std::move(*b);
        if(a == b || p == a)
        {
          k.unpair(a);
          k.unpair(b);
        }
        else
        {
          k.unpair(a);
          k.partner[b] = nullptr;
          k.set(a, p);
        }
      }
      else if(c == 2)
      {
        if(k.get(b) || i == j) return;
        s << " " << i << "=handle(" << j << ")";
        *a = PairElementTokenHandle(*b);
        k.unpair(a);
        k.set(a, b);
      }
      else
      {
        if(j) return;
        s << " renew " << i;
        k.unpair(a);
        k.partner.erase(a);
        k.t[size_t(i)].reset();
        k.t[size_t(i)].reset(new PairElementToken());
      }
      k.h += s.str();
      k.check();
    }
    return;
  }
  for(int o = 0; o < 36; ++o)
  {
    ops.push_back(o);
    exhaust(ops, depth - 1);
    ops.pop_back();
  }
}
SECTION("short token histories", 1)
{
  std::vector<int> ops;
  for(int d = 1; d <= (vp::thorough ? 4 : 3); ++d) exhaust(ops, d);
}

// ------------------------------------------------------------------ callbacks against a list of live registrations
SECTION("callbacks", 1)
{
  while(vp::more() && vp::failed().size() < 4)
  {
    CallbackManager m;
    std::vector<int> log;
    struct Live
    {
      int id;
      std::unique_ptr<PairElementToken> tok;
    };
    std::vector<Live> live; // in order of registration
    int next = 0;
    std::ostringstream h;
    int L = vp::rnd(2, 40);
    for(int n = 0; n < L; ++n)
    {
      ++vp::explored();
      int c = vp::rnd(0, 6);
      int i = live.empty() ? 0 : vp::rnd(0, int(live.size()) - 1);
      if(c <= 1 || live.empty())
      {
        int id = next++;
        h << " register#" << id;
        live.push_back({id, std::unique_ptr<PairElementToken>(new PairElementToken(m.registerCallback([&log, id] { log.push_back(id); })))});
      }
      else if(c == 2)
      {
        h << " destroy#" << live[size_t(i)].id;
        live.erase(live.begin() + i);
      }
      else if(c == 3)
      {
        h << " unregister#" << live[size_t(i)].id;
        m.unregisterCallback(*live[size_t(i)].tok);
        EXPECT_VP(!live[size_t(i)].tok->isPaired(), "token of an unregistered callback is unpaired", h.str());
        bool thrown = false;
        try
        {
          m.unregisterCallback(*live[size_t(i)].tok);
        }
        catch(std::runtime_error &)
        {
          thrown = true;
        }
        EXPECT_VP(thrown, "unregistering twice is refused", h.str());
        live.erase(live.begin() + i);
      }
      else if(c == 4)
      {
        h << " move-token#" << live[size_t(i)].id;
        live[size_t(i)].tok.reset(new PairElementToken(std::move(*live[size_t(i)].tok)));
      }
      else
      {
        h << " run";
        log.clear();
        m.run();
        std::vector<int> exp;
        for(auto & l : live) exp.push_back(l.id);
        EXPECT_VP(log == exp, "each live callback runs once, in registration order", h.str() << " expected " << vp::str(exp) << " got " << vp::str(log));
      }
      vp::context() = h.str();
    }
    // tokens may outlive the manager
    if(vp::rnd(0, 1)) live.clear();
  }
}
