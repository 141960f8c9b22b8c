// C20: write objects to an archive, read them back into fresh or used cells.
#pragma once
#define VERIF_EIGEN
#include "common.hpp"
#include "input.hpp"
#include <albatross/Core>
#include <albatross/Dataset>
#include <albatross/GP>
#include <albatross/serialize/GP>
namespace al = albatross;
using namespace verif;

// ---- what can be seen of an object: exactly ("is") and by using it ("does")
template <typename T> struct Sample; // make(kind, rng), is(x), does(x)
struct Plain {
  template <typename T> static J does(const T &) { return arr({}); }
};
inline J same_shape(Eigen::Index r, Eigen::Index c, const J &v) { return obj({{"rows", j(static_cast<long>(r))}, {"cols", j(static_cast<long>(c))}, {"v", v}}); }
template <typename M> J jdense(const M &m) {
  std::vector<J> v;
  for (Eigen::Index c = 0; c < m.cols(); ++c)
    for (Eigen::Index r = 0; r < m.rows(); ++r)
      v.push_back(j(m(r, c)));
  return same_shape(m.rows(), m.cols(), arr(v));
}
inline double some_real(int kind, Rng &rng) {
  static const std::vector<double> special = {HUGE_VAL, -HUGE_VAL, std::nan(""), 0., -0., 5e-324, 1e308, -1e-300, 1. / 3.};
  return kind == 3 ? rng.pick(special) : kind == 2 ? rng.dyadic() : rng.dyadic() / 3.;
}
inline std::pair<int, int> some_shape(int kind, Rng &rng) {
  if (kind == 0)
    return rng.pick(std::vector<std::pair<int, int>>{{0, 0}, {0, 3}, {2, 0}});
  if (kind == 1)
    return {1, 1};
  if (kind == 4)
    return rng.pick(std::vector<std::pair<int, int>>{{1, 9}, {7, 2}, {30, 5}, {2, 3}, {300, 1}, {1, 140}, {48, 40}});
  return {rng.range(1, 4), rng.range(1, 4)};
}
inline std::string some_text(int kind, Rng &rng) {
  if (kind == 0)
    return "";
  if (kind == 4)
    return std::string(static_cast<std::size_t>(rng.range(200, 6000)), 'q') + std::to_string(rng.range(0, 99));
  return rng.pick(std::vector<std::string>{"a", "two words", "quote\" \\ <x>&amp;", "{\"a\": [1]}", "tab\tand\nline", "  padded"}) + std::to_string(rng.range(0, 99));
}
template <typename M> struct DenseSample : Plain {
  static M make(int kind, Rng &rng) {
    auto s = some_shape(kind, rng);
    if (M::RowsAtCompileTime != Eigen::Dynamic)
      s.first = M::RowsAtCompileTime;
    if (M::ColsAtCompileTime != Eigen::Dynamic)
      s.second = M::ColsAtCompileTime;
    M m;
    m.resize(s.first, s.second);
    for (Eigen::Index r = 0; r < m.rows(); ++r)
      for (Eigen::Index c = 0; c < m.cols(); ++c)
        m(r, c) = std::is_integral<typename M::Scalar>::value ? static_cast<typename M::Scalar>(rng.range(-100, 100)) : static_cast<typename M::Scalar>(some_real(kind, rng));
    return m;
  }
  static J is(const M &m) { return jdense(m); }
};
template <typename S, int R, int C> struct Sample<Eigen::Matrix<S, R, C>> : DenseSample<Eigen::Matrix<S, R, C>> {};
template <> struct Sample<int> : Plain {
  static int make(int, Rng &rng) { return rng.range(-9, 9); }
  static J is(const int &x) { return j(x); }
};
template <> struct Sample<double> : Plain {
  static double make(int kind, Rng &rng) { return some_real(kind == 3 ? 2 : kind, rng); } // cereal itself does not read non-finite JSON numbers
  static J is(const double &x) { return j(x); }
};
template <> struct Sample<std::string> : Plain {
  static std::string make(int kind, Rng &rng) { return some_text(kind, rng); }
  static J is(const std::string &x) { return j(x); }
};

// ------------------------------------------------------------------ histories
// A script writes some objects into one archive and reads them back, in order,
// each into its own cell, which may hold something else by then.
template <typename T> struct Rewrites : std::true_type {}; // whether equal objects have equal archives
template <typename T> J seen(const T &x) { return obj({{"is", Sample<T>::is(x)}, {"does", Sample<T>::does(x)}}); }
template <typename Out, typename In, typename T> void replay(const char *type, const char *archive, const std::vector<int> &writes, const std::vector<int> &cells, Rng &rng) {
  label(std::string(archive) + " " + type + " " + j(writes).s + " into " + j(cells).s);
  step({{"op", j("start")}, {"type", j(type)}, {"archive", j(archive)}});
  std::ostringstream os;
  {
    Out out(os);
    for (const int k : writes) {
      const T x = Sample<T>::make(k, rng);
      step({{"op", j("write")}, {"value", seen(x)}});
      out(x);
    }
  }
  const std::string text = os.str();
  std::ostringstream again;
  {
    std::istringstream is(text);
    In in(is);
    Out out(again);
    for (std::size_t i = 0; i < writes.size(); ++i) {
      T x = cells[i] < 0 ? T() : Sample<T>::make(cells[i], rng);
      step({{"op", j("cell")}, {"fresh", j(cells[i] < 0)}});
      in(x);
      step({{"op", j("read")}, {"value", seen(x)}});
      out(x);
    }
  }
  if (Rewrites<T>::value)
    step({{"op", j("rewritten")}, {"same", j(again.str() == text)}});
  end_behaviour();
}
struct Script {
  std::vector<int> writes, cells;
};
template <typename T> void all_archives(const char *type, const std::vector<Script> &scripts, Rng &rng, int every, bool xml = true) {
  int n = 0;
  for (const auto &s : scripts) {
    if (s.writes.size() > 1 && !rng.chance(1, every))
      continue;
    const int which = s.writes.size() > 1 ? rng.range(0, 3) : n++ % 4;
    switch (which) {
    case 0: replay<cereal::JSONOutputArchive, cereal::JSONInputArchive, T>(type, "json", s.writes, s.cells, rng); break;
    case 1: replay<cereal::BinaryOutputArchive, cereal::BinaryInputArchive, T>(type, "binary", s.writes, s.cells, rng); break;
    case 2: replay<cereal::PortableBinaryOutputArchive, cereal::PortableBinaryInputArchive, T>(type, "portable_binary", s.writes, s.cells, rng); break;
    default:
      if (xml)
        replay<cereal::XMLOutputArchive, cereal::XMLInputArchive, T>(type, "xml", s.writes, s.cells, rng);
    }
  }
}
// -------------------------------------------------------- archives of the past
template <typename T> void from_json(const char *what, const std::string &text, const J &wrote, const J &use = arr({})) {
  label(std::string("old ") + what);
  step({{"op", j("start")}, {"type", j(what)}, {"archive", j("json")}});
  step({{"op", j("write")}, {"value", obj({{"is", wrote}, {"does", use}})}});
  T x;
  {
    std::istringstream is(text);
    cereal::JSONInputArchive in(is);
    in(cereal::make_nvp("value0", x));
  }
  step({{"op", j("cell")}, {"fresh", j(true)}});
  step({{"op", j("read")}, {"value", seen(x)}});
  end_behaviour();
}
void past_models(Rng &);
void solver_types(const std::vector<Script> &, Rng &, int every);
void model_types(const std::vector<Script> &, Rng &, int every);
void sparse_types(const std::vector<Script> &, Rng &, int every);
