#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
// harness conventions: argv = seed, number of random cases, scratch directory
static long cases = 0;
static int fails = 0;
static std::mt19937_64 rng;
inline double uni(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
inline int ri(int a, int b) { return std::uniform_int_distribution<int>(a, b)(rng); }
inline double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
inline void fail(std::string const &what, std::string const &detail) {
  if (fails++ < 20) std::printf("FAIL %s | %s\n", what.c_str(), detail.c_str());
  std::fflush(stdout);
}
template <class... A> std::string str(A const &...a) {
  std::ostringstream o;
  o.precision(17);
  ((o << a << " "), ...);
  return o.str();
}
inline bool close(double a, double b, double rel = 1e-9, double abs_ = 1e-12) {
  if (std::isnan(a) || std::isnan(b)) return false;
  return std::abs(a - b) <= abs_ + rel * std::max(std::abs(a), std::abs(b));
}
inline bool check(bool ok, std::string const &what, std::string const &detail) {
  ++cases;
  if (!ok) fail(what, detail);
  return ok;
}
inline bool same(double a, double b, std::string const &what, std::string const &detail, double rel = 1e-9, double abs_ = 1e-12) {
  return check(close(a, b, rel, abs_), what, detail + str("got", a, "expected", b));
}
// central difference with Richardson extrapolation
inline double fd(std::function<double(double)> const &f, double x, double h) {
  double d1 = (f(x + h) - f(x - h)) / (2 * h), d2 = (f(x + h / 2) - f(x - h / 2)) / h;
  return (4 * d2 - d1) / 3;
}
// runs f in a child process: 0 returned normally, 1 threw, 2 died
template <class F> int outcome(F f) {
  std::fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    int n = open("/dev/null", O_WRONLY);
    if (n >= 0) { dup2(n, 2); dup2(n, 1); }
    signal(SIGABRT, SIG_DFL);
    try { f(); } catch (...) { _exit(1); }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 2;
}
inline int finish() {
  std::printf("CASES %ld\n", cases);
  return fails ? 1 : 0;
}
#define MAIN(argc, argv) \
  rng.seed(argc > 1 ? std::atol(argv[1]) : 1); \
  long N = argc > 2 ? std::atol(argv[2]) : 100; \
  std::string scratch = argc > 3 ? argv[3] : "/tmp"; (void)N; (void)scratch;
