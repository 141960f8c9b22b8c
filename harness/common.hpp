// Recorder shared by all drivers.  A driver exercises the public API of
// albatross and writes what it observed, one behaviour (sequence of events) per
// line; whether an observation is allowed is decided by TLC, never here.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <limits>
#include <memory>
#include <numeric>
#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unistd.h>
#include <utility>
#include <vector>
#include <cmath>
#ifdef VERIF_EIGEN
#include <Eigen/Dense>
#endif

namespace verif {

struct J {
  std::string s;
};

inline std::string quote(const std::string &v) {
  std::string o = "\"";
  for (unsigned char c : v) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += char(c);
    }
  }
  return o + "\"";
}

inline J j(const J &x) { return x; }
inline J j(const std::string &x) { return {quote(x)}; }
inline J j(const char *x) { return {quote(x)}; }
inline J j(bool x) { return {x ? "true" : "false"}; }
// reals are strings so that TLC never sees a floating point literal
inline J j(double x) {
  if (std::isnan(x))
    return {"\"nan\""};
  if (std::isinf(x))
    return {x > 0 ? "\"inf\"" : "\"-inf\""};
  char b[64];
  snprintf(b, sizeof b, "\"%a\"", x);
  return {b};
}
template <typename T,
          std::enable_if_t<std::is_integral<T>::value &&
                               !std::is_same<T, bool>::value,
                           int> = 0>
J j(T x) {
  // TLC integers are 32 bit: wider ones are logged as (decimal) strings
  const long long v = static_cast<long long>(x);
  if (v > 2000000000LL || v < -2000000000LL ||
      (std::is_unsigned<T>::value && sizeof(T) == 8 &&
       static_cast<unsigned long long>(x) > 2000000000ULL))
    return {"\"big:" + std::to_string(x) + "\""};
  return {std::to_string(x)};
}
template <typename T, typename A> J j(const std::vector<T, A> &x);
template <typename T, typename C, typename A> J j(const std::set<T, C, A> &x);
template <typename K, typename V, typename C, typename A>
J j(const std::map<K, V, C, A> &x);
template <typename A, typename B> J j(const std::pair<A, B> &x) {
  return {"[" + j(x.first).s + "," + j(x.second).s + "]"};
}
template <typename It> J jrange(It a, It b) {
  std::string o = "[";
  for (bool first = true; a != b; ++a, first = false) {
    if (!first)
      o += ",";
    o += j(*a).s;
  }
  return {o + "]"};
}
template <typename T, typename A> J j(const std::vector<T, A> &x) {
  std::string o = "[";
  for (std::size_t i = 0; i < x.size(); ++i) {
    if (i)
      o += ",";
    o += j(static_cast<T>(x[i])).s;
  }
  return {o + "]"};
}
template <typename T, typename C, typename A> J j(const std::set<T, C, A> &x) {
  return jrange(x.begin(), x.end());
}
template <typename K, typename V, typename C, typename A>
J j(const std::map<K, V, C, A> &x) {
  std::string o = "[";
  bool first = true;
  for (const auto &kv : x) {
    if (!first)
      o += ",";
    first = false;
    o += "[" + j(kv.first).s + "," + j(kv.second).s + "]";
  }
  return {o + "]"};
}
#ifdef VERIF_EIGEN
inline J jv(const Eigen::VectorXd &x) {
  std::string o = "[";
  for (Eigen::Index i = 0; i < x.size(); ++i)
    o += (i ? "," : "") + j(double(x[i])).s;
  return {o + "]"};
}
inline J jm(const Eigen::MatrixXd &x) {
  std::string o = "[";
  for (Eigen::Index i = 0; i < x.rows(); ++i)
    o += (i ? "," : "") + jv(x.row(i).transpose()).s;
  return {o + "]"};
}
#endif

using Fields = std::vector<std::pair<std::string, J>>;
inline J obj(const Fields &f) {
  std::string o = "{";
  for (std::size_t i = 0; i < f.size(); ++i)
    o += (i ? "," : "") + quote(f[i].first) + ":" + f[i].second.s;
  return {o + "}"};
}
inline J arr(const std::vector<J> &v) { return j(v); }

// ------------------------------------------------------------------ log file
struct Log {
  FILE *f = nullptr;
  std::string label = "start";
  std::vector<std::string> steps;
  std::size_t n = 0;
  static Log &get() {
    static Log l;
    return l;
  }
};
inline char g_label[256] = "start";
inline void label(const std::string &s) {
  std::strncpy(g_label, s.c_str(), sizeof g_label - 1);
}
inline void step(const Fields &f) {
  Log::get().steps.push_back(obj(f).s);
}
inline void end_behaviour() {
  auto &l = Log::get();
  if (l.steps.empty())
    return;
  std::string o = "{\"steps\":[";
  for (std::size_t i = 0; i < l.steps.size(); ++i)
    o += (i ? "," : "") + l.steps[i];
  o += "]}\n";
  fwrite(o.data(), 1, o.size(), l.f);
  l.steps.clear();
  ++l.n;
}
inline void single(const Fields &f) {
  step(f);
  end_behaviour();
}
inline void on_signal(int sig) {
  char b[400];
  int n = snprintf(b, sizeof b, "DRIVER-CRASH signal=%d case=%s\n", sig, g_label);
  (void)!write(2, b, n);
  _exit(70);
}

// deterministic generator independent of <random>
struct Rng {
  uint64_t s;
  // streams of different seeds do not overlap (next() steps by the first constant)
  explicit Rng(uint64_t seed) : s((seed <= 1 ? seed * 0x9E3779B97F4A7C15ULL : seed * 0xD1342543DE82EF95ULL) + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  // uniform integer in [lo, hi]
  int range(int lo, int hi) {
    return lo + static_cast<int>(next() % static_cast<uint64_t>(hi - lo + 1));
  }
  bool coin() { return next() & 1; }
  bool chance(int num, int den) { return range(1, den) <= num; }
  // a size: usually between lo and usual, now and then (1 in `rare`) far larger
  int size(int lo, int usual, int large, int rare = 12) {
    return chance(1, rare) ? range(usual + 1, large) : range(lo, usual);
  }
  // dyadic rational with few bits
  double dyadic(int lo = -64, int hi = 64, double scale = 0.125) {
    return range(lo, hi) * scale;
  }
  template <typename T> const T &pick(const std::vector<T> &v) {
    return v[static_cast<std::size_t>(range(0, static_cast<int>(v.size()) - 1))];
  }
  template <typename T> void shuffle(std::vector<T> &v) {
    for (std::size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[next() % i]);
  }
};

struct Args {
  std::string in, out, tier;
  uint64_t seed = 1;
  bool thorough() const { return tier == "thorough"; }
  int scale(int quick, int deep) const { return thorough() ? deep : quick; }
};
inline Args parse_args(int argc, char **argv) {
  Args a;
  if (argc < 5) {
    fprintf(stderr, "usage: driver IN OUT SEED TIER\n");
    exit(64);
  }
  a.in = argv[1];
  a.out = argv[2];
  a.seed = strtoull(argv[3], nullptr, 10);
  a.tier = argv[4];
  Log::get().f = fopen(a.out.c_str(), "w");
  if (!Log::get().f) {
    fprintf(stderr, "cannot write %s\n", a.out.c_str());
    exit(64);
  }
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS})
    signal(s, on_signal);
  std::set_terminate([] {
    char b[300];
    int n = snprintf(b, sizeof b, "DRIVER-CRASH terminate case=%s\n", g_label);
    (void)!write(2, b, n);
    _exit(71);
  });
  return a;
}
inline int finish() {
  end_behaviour();
  fclose(Log::get().f);
  printf("behaviours=%zu\n", Log::get().n);
  return 0;
}
} // namespace verif
