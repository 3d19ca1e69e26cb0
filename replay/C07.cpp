#include "vp.h"
#include <Eigen/Eigenvalues>
#include <Eigen/LU>
#include <memory>
#include <tvm/internal/MatrixWithProperties.h>
using P = tvm::internal::MatrixProperties;
using S = P::Shape;
using Po = P::Positiveness;

enum Bit { CONST, INV, TRI, LOW, UPP, DIA, MUL, ID, MID, ZER, SYM, PSD, PD, NSD, ND, IND, NZI, NB };
static const char * bitName[] = {"isConstant", "isInvertible", "isTriangular", "isLowerTriangular", "isUpperTriangular",
                                 "isDiagonal", "isMultipleOfIdentity", "isIdentity", "isMinusIdentity", "isZero", "isSymmetric",
                                 "isPositiveSemiDefinite", "isPositiveDefinite", "isNegativeSemidefinite", "isNegativeDefinite",
                                 "isIndefinite", "isNonZeroIndefinite"};
static const char * sn[] = {"GENERAL", "LOWER", "UPPER", "DIAGONAL", "MULTIPLE", "IDENTITY", "MINUS_IDENTITY", "ZERO"};
static const char * pn[] = {"NA", "PSD", "PD", "NSD", "ND", "INDEFINITE", "NON_ZERO_INDEFINITE"};

/** truth about a matrix */
static unsigned truth(const Eigen::MatrixXd & A, bool cst)
{
  unsigned b = 0;
  auto put = [&](int k, bool v) { if(v) b |= 1u << k; };
  int n = int(A.rows());
  Eigen::MatrixXd I = Eigen::MatrixXd::Identity(n, n);
  Eigen::MatrixXd Lo = A.triangularView<Eigen::Lower>(), Up = A.triangularView<Eigen::Upper>();
  bool l = (Lo - A).norm() == 0, u = (Up - A).norm() == 0;
  put(CONST, cst);
  put(INV, Eigen::FullPivLU<Eigen::MatrixXd>(A).rank() == n);
  put(TRI, l || u);
  put(LOW, l);
  put(UPP, u);
  put(DIA, l && u);
  put(MUL, (A - A(0, 0) * I).norm() == 0);
  put(ID, (A - I).norm() == 0);
  put(MID, (A + I).norm() == 0);
  put(ZER, A.norm() == 0);
  bool s = (A - A.transpose()).norm() == 0;
  put(SYM, s);
  put(IND, s);
  put(NZI, s && (b >> INV & 1));
  if(s)
  {
    Eigen::VectorXd e = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(A).eigenvalues();
    double m = e.minCoeff(), M = e.maxCoeff(), t = 1e-9;
    put(PSD, m > -t);
    put(PD, m > t);
    put(NSD, M < t);
    put(ND, M < -t);
  }
  return b;
}

static unsigned claims(const P & p)
{
  bool v[NB] = {p.isConstant(), p.isInvertible(), p.isTriangular(), p.isLowerTriangular(), p.isUpperTriangular(), p.isDiagonal(),
                p.isMultipleOfIdentity(), p.isIdentity(), p.isMinusIdentity(), p.isZero(), p.isSymmetric(),
                p.isPositiveSemiDefinite(), p.isPositiveDefinite(), p.isNegativeSemidefinite(), p.isNegativeDefinite(),
                p.isIndefinite(), p.isNonZeroIndefinite()};
  unsigned b = 0;
  for(int k = 0; k < NB; ++k)
    if(v[k]) b |= 1u << k;
  // the raw accessors must claim nothing more than the queries
  static const unsigned sb[] = {0, 1u << LOW, 1u << UPP, 1u << DIA, 1u << MUL, 1u << ID, 1u << MID, 1u << ZER};
  static const unsigned pb[] = {0, 1u << PSD, 1u << PD, 1u << NSD, 1u << ND, 1u << IND, 1u << NZI};
  b |= sb[p.shape()] | pb[p.positiveness()];
  if(p.constness()) b |= 1u << CONST;
  if(p.invertibility()) b |= 1u << INV;
  return b;
}

struct W { Eigen::MatrixXd A; bool cst; unsigned t; };
static std::vector<W> witnesses()
{
  std::vector<W> w;
  std::vector<Eigen::MatrixXd> ms;
  for(double s : {0., 1., -1., 2., -3., .5})
    for(int n : {1, 2}) ms.push_back(s * Eigen::MatrixXd::Identity(n, n));
  auto m2 = [&](double a, double b, double c, double d) { Eigen::MatrixXd m(2, 2); m << a, b, c, d; ms.push_back(m); };
  m2(1, 0, 0, 2); m2(1, 0, 0, 0); m2(-1, 0, 0, 0); m2(-1, 0, 0, -2); m2(1, 0, 0, -1); m2(1, 0, 0, -2);
  m2(2, 1, 1, 2); m2(1, 1, 1, 1); m2(-1, 1, 1, -1); m2(-2, 1, 1, -2); m2(0, 1, 1, 0); m2(-1, 2, 2, -1);
  m2(1, 0, 3, 1); m2(1, 0, 3, 0); m2(1, 3, 0, 1); m2(0, 3, 0, 0); m2(0, 0, 1, 0);
  m2(1, 2, 3, 4); m2(1, 2, 2, 4); m2(0, 1, -1, 0); m2(1, 1, -1, -1); m2(-1, 0, 5, 2); m2(-1, 5, 0, 2);
  for(auto & m : ms)
    for(bool c : {true, false})
      w.push_back({m, c, truth(m, c)});
  return w;
}

static unsigned asked(S s, Po p, bool c, bool i)
{
  static const unsigned sb[] = {0, 1u << LOW, 1u << UPP, 1u << DIA, 1u << MUL, 1u << ID, 1u << MID, 1u << ZER};
  static const unsigned pb[] = {0, 1u << PSD, 1u << PD, 1u << NSD, 1u << ND, 1u << IND, 1u << NZI};
  return sb[s] | pb[p] | (c ? 1u << CONST : 0) | (i ? 1u << INV : 0);
}
/** matrix w satisfies the annotations */
static bool sat(unsigned q, const W & w)
{
  if(q & ~w.t) return false;
  return (q & (1u << ID | 1u << MID | 1u << ZER)) == 0 || w.cst; // a shape of fixed value is a constant
}
static bool contradictory(bool hs, S s, bool hp, Po p, int c, int i)
{
  if(!hs) s = S::GENERAL;
  if(!hp) p = Po::NA;
  bool pd = p == Po::POSITIVE_DEFINITE, nd = p == Po::NEGATIVE_DEFINITE, nz = p == Po::NON_ZERO_INDEFINITE;
  if(s == S::ZERO && (pd || nd || nz)) return true;
  if(s == S::IDENTITY && (p == Po::NEGATIVE_SEMIDEFINITE || nd)) return true;
  if(s == S::MINUS_IDENTITY && (p == Po::POSITIVE_SEMIDEFINITE || pd)) return true;
  if(c == 0 && (s == S::IDENTITY || s == S::MINUS_IDENTITY || s == S::ZERO)) return true;
  if(i == 0 && (s == S::IDENTITY || s == S::MINUS_IDENTITY || pd || nd || nz)) return true;
  return i == 1 && s == S::ZERO;
}

struct Prop { P p; unsigned claim; std::string d; };
static std::vector<Prop> & props()
{
  static std::vector<Prop> v;
  return v;
}
static std::vector<W> & wit()
{
  static std::vector<W> w = witnesses();
  return w;
}
static std::string mat(const W & w) { return vp::str(w.A.format(Eigen::IOFormat(4, Eigen::DontAlignCols, ",", ";", "", "", "[", "]"))) + (w.cst ? " constant" : ""); }

static std::unique_ptr<P> tryBuild(std::function<P()> f)
{
  try { return std::make_unique<P>(f()); }
  catch(std::exception &) { return nullptr; }
}

SECTION("constructors", 1)
{
  for(int si = -1; si < 8; ++si)
    for(int pi = -1; pi < 7; ++pi)
      for(int c = -1; c < 2; ++c)
        for(int i = -1; i < 2; ++i)
        {
          S s = S(std::max(si, 0));
          Po p = Po(std::max(pi, 0));
          P::Constness cc(c == 1);
          P::Invertibility ii(i == 1);
          std::string d = vp::Msg() << "MatrixProperties(" << (si < 0 ? "" : sn[si]) << " " << (pi < 0 ? "" : pn[pi])
                                    << (c < 0 ? "" : c ? " const" : " not const") << (i < 0 ? "" : i ? " invertible" : " not invertible") << ")";
          vp::context() = d;
          std::vector<std::function<P()>> bs;
          int k = (si >= 0) + 2 * (pi >= 0) + 4 * (c >= 0) + 8 * (i >= 0);
          switch(k)
          {
            case 0: bs = {[&] { return P(); }}; break;
            case 1: bs = {[&] { return P(s); }}; break;
            case 2: bs = {[&] { return P(p); }}; break;
            case 3: bs = {[&] { return P(s, p); }, [&] { return P(p, s); }}; break;
            case 4: bs = {[&] { return P(cc); }}; break;
            case 5: bs = {[&] { return P(s, cc); }, [&] { return P(cc, s); }}; break;
            case 6: bs = {[&] { return P(p, cc); }, [&] { return P(cc, p); }}; break;
            case 7: bs = {[&] { return P(s, p, cc); }, [&] { return P(cc, p, s); }, [&] { return P(p, cc, s); }}; break;
            case 8: bs = {[&] { return P(ii); }}; break;
            case 9: bs = {[&] { return P(s, ii); }, [&] { return P(ii, s); }}; break;
            case 10: bs = {[&] { return P(p, ii); }, [&] { return P(ii, p); }}; break;
            case 11: bs = {[&] { return P(s, p, ii); }, [&] { return P(ii, p, s); }, [&] { return P(p, ii, s); }}; break;
            case 12: bs = {[&] { return P(cc, ii); }, [&] { return P(ii, cc); }}; break;
            case 13: bs = {[&] { return P(s, cc, ii); }, [&] { return P(ii, s, cc); }}; break;
            case 14: bs = {[&] { return P(p, cc, ii); }, [&] { return P(ii, cc, p); }}; break;
            case 15: bs = {[&] { return P(s, p, cc, ii); }, [&] { return P(ii, cc, p, s); }, [&] { return P(cc, s, ii, p); }}; break;
          }
          unsigned q = asked(s, p, c == 1, i == 1);
          bool bad = contradictory(si >= 0, s, pi >= 0, p, c, i);
          for(auto & b : bs)
          {
            ++vp::explored();
            auto r = tryBuild(b);
            EXPECT_VP(bad ? !r : true, "contradictory annotations are refused", d);
            EXPECT_VP(bad ? true : bool(r), "consistent annotations are accepted", d);
            if(!r || bad) continue;
            unsigned cl = claims(*r);
            EXPECT_VP((q & ~cl) == 0, "given annotations are kept", d);
            for(auto & w : wit())
              if(sat(q, w))
                for(int k = 0; k < NB; ++k)
                  EXPECT_VP(!((cl & ~w.t) >> k & 1), "deduced annotation is true", bitName[k] << " is claimed from " << d << " but false for " << mat(w));
            P cp(*r);
            EXPECT_VP(claims(cp) == cl, "copy", d);
            props().push_back({*r, cl, d});
          }
        }
}

SECTION("algebra", 4)
{
  // distinct properties only
  std::map<std::tuple<int, int, unsigned>, Prop> u;
  for(auto & p : props()) u.insert({std::make_tuple(int(p.p.shape()), int(p.p.positiveness()), p.claim), p});
  std::vector<Prop> ps;
  for(auto & x : u) ps.push_back(x.second);
  auto & w = wit();
  size_t n = w.size();
  auto ok = [&](const char * o, const std::string & d, const std::unique_ptr<P> & r, unsigned tr, std::function<std::string()> m) {
    ++vp::explored();
    unsigned cl = claims(*r);
    for(int k = 0; k < NB; ++k)
      EXPECT_VP(!((cl & ~tr) >> k & 1), vp::Msg() << "annotation of " << o, bitName[k] << " is claimed for " << o << " with " << d << " but false for " << m());
  };
  for(double d : {0., 1., -1., 2., -2., .5, -.5})
    for(auto & p : ps)
    {
      std::string de = vp::Msg() << d << " * " << p.d;
      vp::context() = de;
      auto r = tryBuild([&] { return d * p.p; });
      EXPECT_VP(bool(r), "d*A never fails", de);
      if(!r) continue;
      for(auto & x : w)
        if(sat(p.claim, x)) ok("d*A", de, r, truth(d * x.A, x.cst || d == 0), [&] { return mat(x); });
    }
  for(auto & p : ps)
  {
    vp::context() = "-" + p.d;
    auto r = tryBuild([&] { return -p.p; });
    EXPECT_VP(bool(r), "-A never fails", p.d);
    if(!r) continue;
    for(auto & x : w)
      if(sat(p.claim, x)) ok("-A", "-" + p.d, r, truth(-x.A, x.cst), [&] { return mat(x); });
  }
  std::vector<std::vector<unsigned>> tt[3];
  for(int o = 0; o < 3; ++o)
  {
    tt[o].assign(n, std::vector<unsigned>(n, 0));
    for(size_t i = 0; i < n; ++i)
      for(size_t j = 0; j < n; ++j)
      {
        if(w[i].A.rows() != w[j].A.rows()) continue;
        const auto &A = w[i].A, &B = w[j].A;
        bool c = w[i].cst && w[j].cst;
        if(o == 2) c = c || (w[i].cst && A.norm() == 0) || (w[j].cst && B.norm() == 0);
        tt[o][i][j] = o == 0 ? truth(A + B, c) : o == 1 ? truth(A - B, c) : truth(A * B, c);
      }
  }
  std::vector<std::vector<size_t>> sats;
  for(auto & p : ps)
  {
    sats.push_back({});
    for(size_t i = 0; i < n; ++i)
      if(sat(p.claim, w[i])) sats.back().push_back(i);
  }
  static const char * on[] = {"A+B", "A-B", "A*B"};
  for(size_t a = 0; a < ps.size(); ++a)
    for(size_t b = 0; b < ps.size(); ++b)
      for(int o = 0; o < 3; ++o)
      {
        vp::context() = vp::Msg() << on[o] << " with A: " << ps[a].d << ", B: " << ps[b].d;
        auto r = tryBuild([&] { return o == 0 ? ps[a].p + ps[b].p : o == 1 ? ps[a].p - ps[b].p : ps[a].p * ps[b].p; });
        EXPECT_VP(bool(r), vp::Msg() << on[o] << " never fails", vp::context());
        if(!r) continue;
        unsigned cl = claims(*r);
        ++vp::explored();
        for(size_t i : sats[a])
          for(size_t j : sats[b])
            if(w[i].A.rows() == w[j].A.rows() && (cl & ~tt[o][i][j]))
              for(int k = 0; k < NB; ++k)
                EXPECT_VP(!((cl & ~tt[o][i][j]) >> k & 1), vp::Msg() << "annotation of " << on[o],
                          bitName[k] << " claimed but false for " << mat(w[i]) << " and " << mat(w[j]));
      }
}

SECTION("matrix with properties", 1)
{
  using M = tvm::internal::MatrixWithProperties;
  auto none = [](const P & p) { return claims(p) == claims(P()); };
  for(auto & p : props())
  {
    ++vp::explored();
    vp::context() = p.d;
    Eigen::MatrixXd A = Eigen::MatrixXd::Identity(2, 2), B(2, 2);
    B << 1, 2, 3, 4;
    M m(A);
    m.properties(p.p);
    EXPECT_VP(claims(m.properties()) == p.claim, "properties set", p.d);
    M k(static_cast<const M &>(m));
    EXPECT_VP(claims(k.properties()) == p.claim && k == A, "copy with properties", p.d);
    m = B;
    EXPECT_VP(none(m.properties()) && m == B, "assignment resets the properties", p.d);
    m.properties(p.p);
    m.keepProperties(true) = B;
    EXPECT_VP(claims(m.properties()) == p.claim && m == B, "assignment keeping the properties", p.d);
    m.keepProperties(false) = A;
    EXPECT_VP(none(m.properties()) && m == A, "assignment resets the properties", p.d);
    m.properties(p.p);
    m.assignKeepProperties(B);
    EXPECT_VP(claims(m.properties()) == p.claim && m == B, "assignment keeping the properties", p.d);
    m += A;
    EXPECT_VP(none(m.properties()) && m == B + A, "+= resets the properties", p.d);
    m.properties(p.p);
    m -= A;
    EXPECT_VP(none(m.properties()) && m == B, "-= resets the properties", p.d);
    M c(B);
    EXPECT_VP(none(c.properties()), "construction without properties", p.d);
    c = k;
    EXPECT_VP(claims(c.properties()) == p.claim && c == A, "copy assignment", p.d);
  }
}
