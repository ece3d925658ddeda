// Shared by the replay harnesses: random inputs, oracles and failure reporting.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

static long CASES = 0;
static unsigned long SEED = 1;
static int SCALE = 1;
static std::mt19937_64 RNG;
static std::string WHERE;

#define REQUIRE(cond, text)                                                        \
  do {                                                                             \
    ++CASES;                                                                       \
    if (!(cond)) {                                                                 \
      std::ostringstream o_;                                                       \
      o_ << text;                                                                  \
      std::cout << "FAILING INPUT (seed " << SEED << "): " << WHERE << "\n  "      \
                << o_.str() << "\n  violated: " << #cond << std::endl;             \
      std::cout << "CASES " << CASES << std::endl;                                 \
      std::_Exit(1);                                                               \
    }                                                                              \
  } while (0)

static int irand(int lo, int hi) { return lo + (int)(RNG() % (unsigned long)(hi - lo + 1)); }
static double urand() { return (RNG() >> 11) * (1.0 / 9007199254740992.0); }
static double drand(double lo, double hi) { return lo + (hi - lo) * urand(); }
static double logrand(double lo, double hi) { return std::exp(drand(std::log(lo), std::log(hi))); }
static bool near_(double a, double b, double rel = 1e-9, double abs_ = 1e-300) {
  if (a == b) return true;
  return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs_;
}

template <class E, class F>
static bool throws(F f) {
  try { f(); } catch (const E &) { return true; } catch (...) { return false; }
  return false;
}

// does f end the process abnormally (assert) or throw?  run in a child process
template <class F>
static bool refused(F f) {
  std::cout.flush();
  pid_t p = fork();
  if (p == 0) {
    int d = open("/dev/null", O_WRONLY);
    dup2(d, 2);
    dup2(d, 1);
    try { f(); } catch (...) { _exit(7); }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

void run();
int main(int argc, char **argv) {
  if (argc > 1) SEED = strtoul(argv[1], 0, 10);
  if (argc > 2) SCALE = atoi(argv[2]);
  RNG.seed(SEED * 7919 + 17);
  try {
    run();
  } catch (const std::exception &e) {
    std::cout << "FAILING INPUT (seed " << SEED << "): " << WHERE << "\n  unexpected exception: " << e.what() << std::endl;
    std::cout << "CASES " << CASES << std::endl;
    return 1;
  }
  std::cout << "CASES " << CASES << std::endl;
  return 0;
}
#endif
