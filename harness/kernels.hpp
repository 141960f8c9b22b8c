// Features, covariance and mean expressions together with their description
// in the vocabulary of spec/lib/Kernels.tla.
#pragma once
#define VERIF_EIGEN
#include <albatross/GP>
#include "common.hpp"
#include "input.hpp"
namespace al = albatross;
// names the parameter macros expand to
using albatross::Parameter;
using albatross::ParameterHandlingMixin;
using albatross::ParameterKey;
using albatross::ParameterPrior;
using albatross::ParameterStore;
using albatross::ParameterValue;
using namespace verif;

struct Site {
  int id;
  double x;
  bool operator==(const Site &o) const { return id == o.id && x == o.x; }
  bool operator<(const Site &o) const { return id != o.id ? id < o.id : x < o.x; }
};
inline std::ostream &operator<<(std::ostream &os, const Site &s) { return os << "site" << s.id; }
template <typename... Ts> using Var = mapbox::util::variant<Ts...>;
using AnyF = Var<double, Eigen::VectorXd, Site>;
using AnyM = Var<al::Measurement<double>, al::Measurement<Eigen::VectorXd>, al::Measurement<Site>>;

inline J jf(const double &x) { return obj({{"t", j("d")}, {"x", j(x)}}); }
inline J jf(const Eigen::VectorXd &x) { return obj({{"t", j("v")}, {"x", jv(x)}}); }
inline J jf(const Site &x) { return obj({{"t", j("s")}, {"id", j(x.id)}, {"x", j(x.x)}}); }
template <typename... Ts> J jf(const Var<Ts...> &x);
template <typename X> J jf(const al::LinearCombination<X> &x);
template <typename X> J jf(const al::Measurement<X> &x) { return obj({{"t", j("m")}, {"of", jf(x.value)}}); }
template <typename X> J jf(const al::LinearCombination<X> &x) {
  std::vector<J> of;
  for (const auto &v : x.values)
    of.push_back(jf(v));
  return obj({{"t", j("lc")}, {"c", jv(x.coefficients)}, {"of", j(of)}});
}
template <typename... Ts> J jf(const Var<Ts...> &x) {
  return x.match([](const auto &v) { return jf(v); });
}
template <typename X> J jfs(const std::vector<X> &xs) {
  std::vector<J> o;
  for (const auto &x : xs)
    o.push_back(jf(x));
  return j(o);
}

template <typename X> struct Gen;
template <> struct Gen<double> {
  static double make(Rng &r) { return r.dyadic(-6, 6, 0.5); }
};
template <> struct Gen<Eigen::VectorXd> {
  static Eigen::VectorXd make(Rng &r) {
    Eigen::VectorXd v(2);
    do
      v << r.dyadic(-3, 3, 0.5), r.dyadic(-3, 3, 0.5);
    while (v.norm() == 0);
    return v;
  }
};
template <> struct Gen<Site> {
  static Site make(Rng &r) { return {r.range(0, 2), r.dyadic(-3, 3, 0.5)}; }
};
template <typename X> struct Gen<al::Measurement<X>> {
  static al::Measurement<X> make(Rng &r) { return al::Measurement<X>(Gen<X>::make(r)); }
};
template <typename... Ts> struct Gen<Var<Ts...>> {
  template <typename T> static void put(Var<Ts...> &out, int &k, Rng &r) {
    if (k-- == 0)
      out = Gen<T>::make(r);
  }
  static Var<Ts...> make(Rng &r) {
    Var<Ts...> out;
    int k = r.range(0, static_cast<int>(sizeof...(Ts)) - 1);
    int unused[] = {(put<Ts>(out, k, r), 0)...};
    (void)unused;
    return out;
  }
};
template <typename X> std::vector<X> features(int n, Rng &r) {
  std::vector<X> o;
  for (int i = 0; i < n; ++i)
    o.push_back(Gen<X>::make(r));
  return o;
}
template <typename X> struct Gen<al::LinearCombination<X>> {
  static al::LinearCombination<X> make(Rng &r) {
    const int n = r.chance(1, 8) ? 0 : r.size(1, 3, 14, 60);
    const auto fs = features<X>(n, r);
    if (r.chance(1, 4))
      return al::LinearCombination<X>(fs);
    Eigen::VectorXd c(n);
    for (int i = 0; i < n; ++i)
      c[i] = r.dyadic(-8, 8, 0.5);
    return al::LinearCombination<X>(fs, c);
  }
};

// ----------------------------------------------------------- expressions
template <typename C> struct E {
  C cov;
  J tree;
  std::string name;
};
inline J jp(const std::vector<std::pair<std::string, double>> &p) { return j(p); }
template <typename C> E<C> leaf(const C &c, const char *k, const std::vector<std::pair<std::string, double>> &p, const std::string &name, Fields extra = {}) {
  Fields f = {{"k", j(k)}, {"p", jp(p)}, {"name", j(name)}};
  f.insert(f.end(), extra.begin(), extra.end());
  return {c, obj(f), name};
}
template <typename A, typename B> auto operator+(const E<A> &a, const E<B> &b) {
  auto c = a.cov + b.cov;
  const std::string name = "(" + a.name + "+" + b.name + ")";
  return E<std::decay_t<decltype(c)>>{c, obj({{"k", j("sum")}, {"l", a.tree}, {"r", b.tree}, {"name", j(name)}}), name};
}
template <typename A, typename B> auto operator*(const E<A> &a, const E<B> &b) {
  auto c = a.cov * b.cov;
  const std::string name = "(" + a.name + "*" + b.name + ")";
  return E<std::decay_t<decltype(c)>>{c, obj({{"k", j("prod")}, {"l", a.tree}, {"r", b.tree}, {"name", j(name)}}), name};
}
template <typename A> auto meas(const E<A> &a) {
  auto c = al::measurement_only(a.cov);
  const std::string name = "measurement[" + a.name + "]";
  return E<std::decay_t<decltype(c)>>{c, obj({{"k", j("meas")}, {"of", a.tree}, {"name", j(name)}}), name};
}
template <typename M> struct MetricName;
template <> struct MetricName<al::EuclideanDistance> {
  static const char *n() { return "euclid"; }
  static const char *full() { return "euclidean_distance"; }
};
template <> struct MetricName<al::RadialDistance> {
  static const char *n() { return "radial"; }
  static const char *full() { return "radial_distance"; }
};
template <> struct MetricName<al::AngularDistance> {
  static const char *n() { return "angular"; }
  static const char *full() { return "angular_distance"; }
};
template <typename M> Fields metric() { return {{"metric", j(MetricName<M>::n())}}; }
template <typename M> std::string bracket(const char *n) { return std::string(n) + "[" + MetricName<M>::full() + "]"; }
using Euclid = al::EuclideanDistance;
template <typename M = Euclid> auto se(double l, double s) {
  return leaf(al::SquaredExponential<M>(l, s), "se", {{"squared_exponential_length_scale", l}, {"sigma_squared_exponential", s}}, bracket<M>("squared_exponential"), metric<M>());
}
template <typename M = Euclid> auto expo(double l, double s) {
  return leaf(al::Exponential<M>(l, s), "exp", {{"exponential_length_scale", l}, {"sigma_exponential", s}}, bracket<M>("exponential"), metric<M>());
}
template <typename M = Euclid> auto m32(double l, double s) {
  return leaf(al::Matern32<M>(l, s), "m32", {{"matern_32_length_scale", l}, {"sigma_matern_32", s}}, bracket<M>("matern_32"), metric<M>());
}
template <typename M = Euclid> auto m52(double l, double s) {
  return leaf(al::Matern52<M>(l, s), "m52", {{"matern_52_length_scale", l}, {"sigma_matern_52", s}}, bracket<M>("matern_52"), metric<M>());
}
inline auto cst(double s) { return leaf(al::Constant(s), "const", {{"sigma_constant", s}}, "constant"); }
template <typename X> struct Tag;
template <> struct Tag<double> { static const char *n() { return "d"; } };
template <> struct Tag<Eigen::VectorXd> { static const char *n() { return "v"; } };
template <> struct Tag<Site> { static const char *n() { return "s"; } };
template <typename X = double> auto noise(double s) {
  return leaf(al::IndependentNoise<X>(s), "noise", {{"sigma_independent_noise", s}}, "independent_noise", {{"on", j(Tag<X>::n())}});
}
inline auto nugget(double s) {
  al::Nugget n;
  n.nugget_sigma.value = s;
  return leaf(n, "nugget", {{"nugget_sigma", s}}, "nugget");
}
template <int order> auto poly(double s) {
  std::vector<std::pair<std::string, double>> p;
  al::Polynomial<order> c(s);
  for (int i = 0; i <= order; ++i) {
    p.push_back({"sigma_polynomial_" + std::to_string(i), s + i * 0.25});
    c.set_param_value(p.back().first, p.back().second);
  }
  return leaf(c, "poly", p, "polynomial_" + std::to_string(order));
}
// user covariance defined for unequal types, in one order only
class Cross : public al::CovarianceFunction<Cross> {
public:
  Cross(double s = 1.) { cross_scale = {s, al::UninformativePrior()}; }
  ALBATROSS_DECLARE_PARAMS(cross_scale)
  std::string name() const { return "cross"; }
  double _call_impl(const double &x, const double &y) const { return cross_scale.value * x * y; }
  double _call_impl(const double &x, const Site &y) const { return cross_scale.value * x * y.x; }
  double _call_impl(const Site &x, const Site &y) const { return cross_scale.value * x.x * y.x; }
};
inline auto cross(double s) { return leaf(Cross(s), "cross", {{"cross_scale", s}}, "cross"); }
// user covariance that tells measurements apart (a number converts to a measurement,
// so all four pairs are defined)
class Seen : public al::CovarianceFunction<Seen> {
public:
  Seen(double s = 1., double o = 1.) {
    seen_scale = {s, al::UninformativePrior()};
    seen_offset = {o, al::UninformativePrior()};
  }
  ALBATROSS_DECLARE_PARAMS(seen_scale, seen_offset)
  std::string name() const { return "seen"; }
  double at(const double &x) const { return seen_scale.value * x; }
  double at(const al::Measurement<double> &x) const { return seen_scale.value * x.value + seen_offset.value; }
  double _call_impl(const double &x, const double &y) const { return at(x) * at(y); }
  double _call_impl(const al::Measurement<double> &x, const double &y) const { return at(x) * at(y); }
  double _call_impl(const double &x, const al::Measurement<double> &y) const { return at(x) * at(y); }
  double _call_impl(const al::Measurement<double> &x, const al::Measurement<double> &y) const { return at(x) * at(y); }
};
inline auto seen(double s, double o) { return leaf(Seen(s, o), "seen", {{"seen_scale", s}, {"seen_offset", o}}, "seen"); }
class ScaleD : public al::ScalingFunction {
public:
  ScaleD(double s = 1.) { scale_offset = {s, al::UninformativePrior()}; }
  ALBATROSS_DECLARE_PARAMS(scale_offset)
  std::string get_name() const override { return "scale_d"; }
  double _call_impl(const double &x) const { return scale_offset.value + x; }
};
class ScaleDS : public al::ScalingFunction {
public:
  ScaleDS(double s = 1.) { scale_factor = {s, al::UninformativePrior()}; }
  ALBATROSS_DECLARE_PARAMS(scale_factor)
  std::string get_name() const override { return "scale_ds"; }
  double _call_impl(const double &x) const { return scale_factor.value + x; }
  double _call_impl(const Site &s) const { return scale_factor.value * s.x; }
};
inline auto scale_d(double s) { return leaf(al::ScalingTerm<ScaleD>(ScaleD(s)), "scaling", {{"scale_offset", s}}, "scale_d", {{"on", j(std::vector<std::string>{"d"})}}); }
inline auto scale_ds(double s) { return leaf(al::ScalingTerm<ScaleDS>(ScaleDS(s)), "scaling", {{"scale_factor", s}}, "scale_ds", {{"on", j(std::vector<std::string>{"d", "s"})}}); }

// ------------------------------------------------------------------- means
class SiteMean : public al::MeanFunction<SiteMean> {
public:
  SiteMean(double s = 1.) { site_slope = {s, al::UninformativePrior()}; }
  ALBATROSS_DECLARE_PARAMS(site_slope)
  std::string get_name() const { return "site"; }
  double _call_impl(const Site &s) const { return site_slope.value * s.x; }
};
// what a measurement is off by
template <typename X> class BiasMean : public al::MeanFunction<BiasMean<X>> {
public:
  BiasMean(double b = 1.) { bias = {b, al::UninformativePrior()}; }
  ALBATROSS_DECLARE_PARAMS(bias)
  std::string get_name() const { return "bias"; }
  double _call_impl(const X &) const { return 0.; }
  double _call_impl(const al::Measurement<X> &) const { return bias.value; }
};
template <typename X = double> auto bias_mean(double b) { return leaf(BiasMean<X>(b), "bias", {{"bias", b}}, "bias", {{"on", j(Tag<X>::n())}}); }
inline auto zero_mean() { return leaf(al::ZeroMean(), "zero", {}, "zero"); }
inline auto linear_mean(double slope, double offset) {
  al::LinearMean m;
  m.set_param_value("slope", slope);
  m.set_param_value("offset", offset);
  return leaf(m, "linear", {{"slope", slope}, {"offset", offset}}, "linear");
}
inline auto site_mean(double s) { return leaf(SiteMean(s), "site", {{"site_slope", s}}, "site"); }
