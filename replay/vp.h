// Support of the replay drivers: contracts evaluated as oracles on the real, compiled code of /repo.
// A failure prints "FAIL <key> | <input and outcome>"; the process ends with 1. "EXPLORED n" counts the cases.
#pragma once
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <execinfo.h>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace vp
{
inline std::string & context()
{
  static std::string c;
  return c;
}
inline std::string & clause()
{
  static std::string c = "no crash";
  return c;
}
inline long & explored()
{
  static long n = 0;
  return n;
}
inline std::map<std::string, int> & failed()
{
  static std::map<std::string, int> f;
  return f;
}
inline bool thorough = false;
inline unsigned seed = 1;
inline double budget = 10;
inline std::mt19937 & rng()
{
  static std::mt19937 r(seed);
  return r;
}
inline double now()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}
inline double & t0()
{
  static double t = now();
  return t;
}
inline double & sliceEnd()
{
  static double t = 1e300;
  return t;
}
/** time left in the current section */
inline bool more() { return now() < sliceEnd(); }
inline int rnd(int a, int b) { return a + int(rng()() % unsigned(b - a + 1)); }
inline double rndd() { return double(rnd(-8, 8)) / 4; }

inline void fail(const std::string & key, const std::string & what)
{
  int & n = failed()[key];
  if(n++ < 2)
  {
    std::string w = what;
    for(auto & ch : w)
      if(ch == '\n') ch = ' ';
    std::printf("FAIL %s | %s\n", key.c_str(), w.substr(0, 3000).c_str());
    std::fflush(stdout);
  }
}

inline void onSignal(int s)
{
  std::printf("FAIL crash: %s | signal %d (%s) in: %s\n", clause().c_str(), s, strsignal(s), context().substr(0, 3000).c_str());
  std::printf("EXPLORED %ld\n", explored());
  std::fflush(stdout);
  _exit(1);
}

inline void onAlarm(int)
{
  std::printf("FAIL termination: %s | no result within the time limit in: %s\n", clause().c_str(), context().substr(0, 3000).c_str());
  std::fflush(stdout);
  _exit(1);
}

/** sections run one after another, sharing the time budget */
struct Section
{
  const char * name;
  double weight;
  std::function<void()> f;
};
inline std::vector<Section> & sections()
{
  static std::vector<Section> s;
  return s;
}
struct Reg
{
  Reg(const char * n, double w, std::function<void()> f) { sections().push_back({n, w, f}); }
};

template<typename T>
std::string str(const T & x)
{
  std::ostringstream o;
  o << x;
  return o.str();
}
template<typename T>
std::string str(const std::vector<T> & x)
{
  std::ostringstream o;
  o << "[";
  for(size_t i = 0; i < x.size(); ++i) o << (i ? "," : "") << x[i];
  o << "]";
  return o.str();
}
struct Msg
{
  std::ostringstream o;
  template<typename T>
  Msg & operator<<(const T & x)
  {
    o << x;
    return *this;
  }
  operator std::string() const { return o.str(); }
};
} // namespace vp

#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define SECTION(name, weight)                          \
  static void VP_CAT(sec_, __LINE__)();                \
  static vp::Reg VP_CAT(reg_, __LINE__)(name, weight, VP_CAT(sec_, __LINE__)); \
  static void VP_CAT(sec_, __LINE__)()

/** cond must hold; key names the violated clause, msg the input */
#define EXPECT_VP(cond, key, msg)                                              \
  do                                                                           \
  {                                                                            \
    if(!(cond)) vp::fail(key, (vp::Msg() << msg << "  [" << vp::context() << "]").o.str()); \
  } while(0)

int main(int argc, char ** argv)
{
  vp::thorough = argc > 1 && std::string(argv[1]) == "thorough";
  vp::seed = argc > 2 ? unsigned(atoi(argv[2])) : 1u;
  vp::budget = argc > 3 ? atof(argv[3]) : 10;
  std::string only = argc > 4 ? argv[4] : "";
  vp::rng().seed(vp::seed);
  for(int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) std::signal(s, vp::onSignal);
  std::signal(SIGALRM, vp::onAlarm);
  vp::t0();
  double wsum = 0;
  for(auto & s : vp::sections()) wsum += s.weight;
  for(auto & s : vp::sections())
  {
    if(!only.empty() && only != s.name) continue;
    vp::clause() = s.name;
    vp::context() = "";
    vp::sliceEnd() = vp::now() + vp::budget * s.weight / wsum;
    long n0 = vp::explored();
    alarm(unsigned(vp::budget) + 120);
    try
    {
      s.f();
    }
    catch(std::exception & e)
    {
      vp::fail(std::string("exception: ") + s.name, std::string(e.what()) + " in: " + vp::context());
    }
    catch(...)
    {
      vp::fail(std::string("exception: ") + s.name, "unknown exception in: " + vp::context());
    }
    std::printf("SECTION %s %ld\n", s.name, vp::explored() - n0);
  }
  std::printf("EXPLORED %ld\n", vp::explored());
  std::fflush(stdout);
  _exit(vp::failed().empty() ? 0 : 1);
}
