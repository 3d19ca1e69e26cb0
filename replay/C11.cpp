// C11: compiled copy operations against the declared formula, evaluated coefficient by coefficient.
#include "vp.h"
#include <cmath>
#include <optional>
#include <tvm/scheme/internal/CompiledAssignmentWrapper.h>
using namespace tvm::scheme::internal;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using Big = std::vector<std::vector<double>>;

static const char * an[] = {"COPY", "ADD", "SUB", "MIN", "MAX"};
static const char * wn[] = {"NONE", "MINUS", "SCALAR", "DIAGONAL"};
static const char * mn[] = {"IDENTITY", "GENERAL", "INVERSE_DIAGONAL"};
static const char * fn[] = {"EXTERNAL", "ZERO", "CONSTANT"};

static double val(bool nz = false)
{
  for(;;)
  {
    double d = vp::rndd();
    if(!nz || d != 0) return d;
  }
}
static void fillRand(MatrixXd & M, bool nz = false)
{
  for(int i = 0; i < M.rows(); ++i)
    for(int j = 0; j < M.cols(); ++j) M(i, j) = val(nz);
}

/** a buffer with a window; everything outside of the window must stay as it was */
template<typename T>
struct Win
{
  MatrixXd big;
  int r0, c0, r, c;
  Win(int R, int C, bool nz = false) : r(R), c(C)
  {
    r0 = vp::rnd(0, 2);
    c0 = vp::rnd(0, 2);
    big.resize(R + r0 + vp::rnd(0, 2), C + c0 + vp::rnd(0, 2));
    fillRand(big, nz);
  }
  Eigen::Ref<T> ref();
};
template<>
Eigen::Ref<MatrixXd> Win<MatrixXd>::ref()
{ return big.block(r0, c0, r, c); }
template<>
Eigen::Ref<VectorXd> Win<VectorXd>::ref()
{ return big.col(c0).segment(r0, r); }

template<typename T, AssignType A, WeightMult W, MatrixMult M, Source F>
struct Case
{
  static constexpr bool vec = std::is_same<T, VectorXd>::value;
  using Wrap = CompiledAssignmentWrapper<T>;

  /** sources: kept at the same place, their contents change */
  double s = 1;
  VectorXd d;
  MatrixXd Mul;
  double cst = 0;
  std::vector<std::unique_ptr<Win<T>>> from, to;
  int curFrom = 0;

  Wrap make(Eigen::Ref<T> t)
  {
    if constexpr(F == ZERO)
      return Wrap::template make<A, W, M, ZERO>(t);
    else if constexpr(F == CONSTANT)
      return make2(t, cst);
    else
    {
      Eigen::Ref<const T> f(from[curFrom]->ref());
      return make2(t, f);
    }
  }
  template<typename X>
  Wrap make2(Eigen::Ref<T> t, const X & f)
  {
    Eigen::Ref<const VectorXd> dr(d);
    Eigen::Ref<const MatrixXd> mr(Mul);
    if constexpr(W == SCALAR && M == IDENTITY) return Wrap::template make<A, W, M, F>(t, f, s);
    else if constexpr(W == SCALAR) return Wrap::template make<A, W, M, F>(t, f, s, mr);
    else if constexpr(W == DIAGONAL && M == IDENTITY) return Wrap::template make<A, W, M, F>(t, f, dr);
    else if constexpr(W == DIAGONAL) return Wrap::template make<A, W, M, F>(t, f, dr, mr);
    else if constexpr(M == IDENTITY) return Wrap::template make<A, W, M, F>(t, f);
    else return Wrap::template make<A, W, M, F>(t, f, mr);
  }

  /** what the window of target k must contain after a run, from source window j and constant c */
  MatrixXd expected(const MatrixXd & before, int j, double c)
  {
    int R = int(before.rows()), C = int(before.cols());
    MatrixXd out = before;
    auto src = [&](int i, int l) {
      if(F == ZERO) return 0.;
      if(F == CONSTANT) return c;
      return double(from[j]->ref()(i, l));
    };
    for(int i = 0; i < R; ++i)
      for(int l = 0; l < C; ++l)
      {
        double v = 0;
        if(F != ZERO)
        {
          if(M == IDENTITY)
            v = src(i, l);
          else if(M == GENERAL)
          {
            if(vec)
              for(int k = 0; k < Mul.cols(); ++k) v += Mul(i, k) * src(k, 0);
            else
              for(int k = 0; k < Mul.rows(); ++k) v += src(i, k) * Mul(k, l);
          }
          else
            v = vec ? src(i, 0) / Mul(i, i) : src(i, l) / Mul(l, l);
          if(W == MINUS) v = -v;
          if(W == SCALAR) v = s * v;
          if(W == DIAGONAL) v = d(i) * v;
        }
        double t = before(i, l);
        out(i, l) = A == COPY ? v : A == ADD ? t + v : A == SUB ? t - v : A == MIN ? std::min(t, v) : std::max(t, v);
      }
    return out;
  }

  std::string name() const
  {
    return std::string(vec ? "vector " : "matrix ") + an[A] + " " + wn[W] + " " + mn[M] + " " + fn[F];
  }

  void check(Wrap & w, int t, int j, double c, const char * after)
  {
    vp::explored()++;
    auto & D = *to[t];
    MatrixXd before = D.big, S = F == EXTERNAL ? MatrixXd(from[j]->big) : MatrixXd();
    std::vector<MatrixXd> other;
    for(auto & o : to) other.push_back(o->big);
    MatrixXd win = D.ref();
    MatrixXd exp = expected(win, j, c), wb = Mul;
    VectorXd db = d;
    double sb = s;
    vp::Msg in;
    in << name() << " " << after << ": target " << MatrixXd(win) << " source "
       << (F == EXTERNAL ? vp::str(MatrixXd(from[j]->ref())) : vp::str(c)) << " scalar " << s << " diagonal " << d.transpose()
       << " matrix " << Mul;
    vp::context() = in;
    w.run();
    MatrixXd got = D.ref();
    double tol = 1e-11;
    EXPECT_VP((got - exp).cwiseAbs().sum() <= tol, "the destination gets the declared combination",
              vp::context() << " -> " << got << " expected " << exp);
    D.big.block(D.r0, D.c0, D.r, D.c) = before.block(D.r0, D.c0, D.r, D.c);
    bool same = (D.big.array() == before.array()).all();
    D.big.block(D.r0, D.c0, D.r, D.c) = got;
    for(size_t k = 0; k < to.size(); ++k)
      if(int(k) != t) same = same && (to[k]->big.array() == other[k].array()).all();
    if(F == EXTERNAL) same = same && (from[j]->big.array() == S.array()).all();
    same = same && (Mul.size() == 0 || (Mul.array() == wb.array()).all()) && (d.size() == 0 || (d.array() == db.array()).all()) && s == sb;
    EXPECT_VP(same, "nothing outside the destination is modified", vp::context());
  }

  void refuses(Wrap & w)
  {
    bool thrown = false;
    try
    {
      if constexpr(F == CONSTANT)
        w.from(from[0]->ref());
      else
        w.from(1.5);
    }
    catch(std::exception &)
    {
      thrown = true;
    }
    EXPECT_VP(thrown, "a source of the wrong kind is refused", name());
  }

  void change()
  {
    s = val();
    for(int i = 0; i < d.size(); ++i) d(i) = val();
    for(int i = 0; i < Mul.rows(); ++i)
      for(int j = 0; j < Mul.cols(); ++j) Mul(i, j) = val(true);
    for(auto & f : from) fillRand(f->big);
    for(auto & t : to) fillRand(t->big);
  }

  void run()
  {
    int R = vp::rnd(0, 9) == 0 ? 0 : vp::rnd(1, 5), C = vec ? 1 : vp::rnd(0, 9) == 0 ? 0 : vp::rnd(1, 5);
    if(vp::rnd(0, 19) == 0) R = vp::rnd(15, 24), C = vec ? 1 : vp::rnd(15, 24);
    int fr = R, fc = C;
    d.resize(R);
    if(M == GENERAL)
    {
      int k = vp::rnd(1, 5);
      if(vp::rnd(0, 19) == 0) k = 21;
      if(vec)
        fr = k, Mul.resize(R, k);
      else
        fc = k, Mul.resize(k, C);
    }
    else if(M == INVERSE_DIAGONAL)
      Mul.resize(vec ? R : C, vec ? R : C);
    else
      Mul.resize(0, 0);
    for(int k = 0; k < 3; ++k)
    {
      from.push_back(std::make_unique<Win<T>>(fr, fc));
      to.push_back(std::make_unique<Win<T>>(R, C));
    }
    change();
    cst = val();
    double c = cst;
    int t = 0, j = 0;
    auto w = make(to[0]->ref());
    cst = val(); // the constant is taken at creation
    check(w, t, j, c, "after creation");
    int n = vp::rnd(2, 6);
    for(int k = 0; k < n; ++k)
    {
      switch(vp::rnd(0, 6))
      {
        case 0:
          change();
          check(w, t, j, c, "after the sources changed");
          break;
        case 1:
          t = vp::rnd(0, 2);
          w.to(to[t]->ref());
          check(w, t, j, c, "after to()");
          break;
        case 2:
          if constexpr(F == CONSTANT)
          {
            c = val();
            w.from(c);
          }
          else
          {
            j = vp::rnd(0, 2);
            w.from(from[j]->ref());
          }
          check(w, t, j, c, "after from()");
          break;
        case 3:
        {
          Wrap w2(w);
          check(w2, t, j, c, "on a copy");
          // a change of the copy must not affect the original
          int t2 = (t + 1) % 3;
          w2.to(to[t2]->ref());
          int j2 = j;
          double c2 = c;
          if constexpr(F == CONSTANT)
            w2.from(c2 = val());
          else
            w2.from(from[j2 = (j + 1) % 3]->ref());
          check(w, t, j, c, "after its copy was changed");
          check(w2, t2, j2, c2, "on a changed copy");
          break;
        }
        case 4:
        {
          MatrixXd x = MatrixXd::Zero(2, 1);
          T x2 = T(x), y2 = T(x);
          Eigen::Ref<T> xr(x2);
          Eigen::Ref<const T> yr(y2);
          auto w2 = CompiledAssignmentWrapper<T>::template make<COPY, NONE, IDENTITY, EXTERNAL>(xr, yr);
          if constexpr(vec)
            if(vp::rnd(0, 1)) w2 = CompiledAssignmentWrapper<T>::template make<SUB, NONE, IDENTITY, CONSTANT>(xr, 2.);
          w2 = w;
          refuses(w2);
          check(w2, t, j, c, "on an assigned copy");
          Wrap w3;
          w3 = w;
          check(w3, t, j, c, "on a copy assigned to an empty wrapper");
          w = w2;
          check(w, t, j, c, "after being assigned");
          break;
        }
        case 5:
        {
          Wrap w2(std::move(w));
          check(w2, t, j, c, "after a move");
          w = std::move(w2);
          check(w, t, j, c, "after a move assignment");
          break;
        }
        case 6:
        {
          refuses(w);
          check(w, t, j, c, "after a refused from()");
          break;
        }
      }
    }
  }
};

using Fn = void (*)();
static std::vector<Fn> & all()
{
  static std::vector<Fn> a;
  return a;
}
template<typename T, AssignType A, WeightMult W, MatrixMult M, Source F>
static void one()
{ Case<T, A, W, M, F>().run(); }
template<typename T, AssignType A, WeightMult W, MatrixMult M>
static void regF()
{
  all().push_back(&one<T, A, W, M, EXTERNAL>);
  if constexpr(std::is_same<T, VectorXd>::value) all().push_back(&one<T, A, W, M, CONSTANT>);
}
template<typename T, AssignType A, WeightMult W>
static void regM()
{
  regF<T, A, W, IDENTITY>();
  regF<T, A, W, GENERAL>();
  regF<T, A, W, INVERSE_DIAGONAL>();
}
template<typename T, AssignType A>
static void regW()
{
  regM<T, A, NONE>();
  regM<T, A, MINUS>();
  regM<T, A, SCALAR>();
  regM<T, A, DIAGONAL>();
  all().push_back(&one<T, A, NONE, IDENTITY, ZERO>);
}
template<typename T>
static void regA()
{
  regW<T, COPY>();
  regW<T, ADD>();
  regW<T, SUB>();
  regW<T, MIN>();
  regW<T, MAX>();
}

SECTION("all operations", 1)
{
  regA<MatrixXd>();
  regA<VectorXd>();
  std::shuffle(all().begin(), all().end(), vp::rng());
  for(size_t k = 0; vp::more(); ++k) all()[k % all().size()]();
}
