// C29: models, fits and predictions as values, through histories.
#include "common.hpp"
#include "input.hpp"
#include <albatross/SparseGP>
using namespace verif;
namespace al = albatross;
using al::Parameter;
using al::ParameterStore;
using V = Eigen::VectorXd;
using Mx = Eigen::MatrixXd;
using Points = std::vector<std::array<int, 3>>; // feature, target, variance
extern "C" const char *__asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=1"; }

// -------------------------------------------------------- the transparent model
class Transparent;
namespace albatross {
template <> struct Fit<Transparent> {
  std::vector<double> features;
  MarginalDistribution targets;
  double a = 0.;
  bool operator==(const Fit &o) const { return features == o.features && targets == o.targets && a == o.a; }
};
} // namespace albatross
class Transparent : public al::ModelBase<Transparent> {
public:
  ALBATROSS_DECLARE_PARAMS(a, b);
  Transparent() {
    a = {1., al::UninformativePrior()};
    b = {1., al::UninformativePrior()};
  }
  std::string get_name() const { return "transparent"; }
  using F = al::Fit<Transparent>;
  F _fit_impl(const std::vector<double> &xs, const al::MarginalDistribution &y) const {
    F f;
    f.features = xs;
    f.targets = y;
    f.a = a.value;
    return f;
  }
  F _update_impl(const F &old, const std::vector<double> &xs, const al::MarginalDistribution &y) const {
    F f = old;
    f.features.insert(f.features.end(), xs.begin(), xs.end());
    f.targets = al::concatenate_marginals(old.targets, y);
    return f;
  }
  static double at(const double &x) { return x; }
  static double at(const al::Measurement<double> &x) { return x.value; }
  static double noise(const double &) { return 0.; }
  static double noise(const al::Measurement<double> &) { return 2.; }
  template <typename X> V mean(const std::vector<X> &xs, const F &f) const {
    double level = 0.;
    for (std::size_t i = 0; i < f.features.size(); ++i) {
      const auto k = static_cast<long>(i);
      level += static_cast<double>(i + 1) * (f.features[i] * f.targets.mean[k] + f.targets.covariance.diagonal()[k]);
    }
    V m(xs.size());
    for (std::size_t i = 0; i < xs.size(); ++i)
      m[static_cast<long>(i)] = b.value * at(xs[i]) + f.a * level;
    return m;
  }
  template <typename X> V _predict_impl(const std::vector<X> &xs, const F &f, al::PredictTypeIdentity<V> &&) const { return mean(xs, f); }
  template <typename X> al::MarginalDistribution _predict_impl(const std::vector<X> &xs, const F &f, al::PredictTypeIdentity<al::MarginalDistribution> &&) const {
    V v(xs.size());
    for (std::size_t i = 0; i < xs.size(); ++i)
      v[static_cast<long>(i)] = 1. + at(xs[i]) * at(xs[i]) + noise(xs[i]);
    return {V(mean(xs, f).array() + 1.), v};
  }
  template <typename X> al::JointDistribution _predict_impl(const std::vector<X> &xs, const F &f, al::PredictTypeIdentity<al::JointDistribution> &&) const {
    Mx c(xs.size(), xs.size());
    for (std::size_t i = 0; i < xs.size(); ++i)
      for (std::size_t k = 0; k < xs.size(); ++k)
        c(static_cast<long>(i), static_cast<long>(k)) = 1. + at(xs[i]) * at(xs[k]) + (i == k ? noise(xs[i]) : 0.);
    return {V(mean(xs, f).array() + 2.), c};
  }
};

// ---------------------------------------------------------- what differs by model
struct AsTransparent {
  using Model = Transparent;
  static constexpr bool updates = true, in_place = true, exact = true;
  static const char *kind() { return "transparent"; }
  static Model make() { return Model(); }
  static const char *name(char n) { return n == 'a' ? "a" : "b"; }
  template <typename F> static J data(const F &f) {
    std::vector<J> d;
    for (std::size_t i = 0; i < f.features.size(); ++i) {
      const auto k = static_cast<long>(i);
      d.push_back(j(std::vector<long long>{std::llround(f.features[i]), std::llround(f.targets.mean[k]), std::llround(f.targets.covariance.diagonal()[k])}));
    }
    return arr(d);
  }
};
inline auto covariance() { return al::SquaredExponential<al::EuclideanDistance>(1., 1.) + al::measurement_only(al::IndependentNoise<double>(1.)); }
inline auto make_gp() { return al::gp_from_covariance(covariance(), "gp"); }
struct AsGp {
  using Model = decltype(make_gp());
  static Model make() { return make_gp(); }
  static constexpr bool updates = false, in_place = false, exact = false;
  static const char *kind() { return "gp"; }
  static const char *name(char n) { return n == 'a' ? "sigma_squared_exponential" : "squared_exponential_length_scale"; }
  template <typename F> static J data(const F &) { return arr({}); }
};
struct Sign {
  int operator()(const double &x) const { return x < 0. ? 0 : 1; }
};
inline auto make_sparse() { return al::sparse_gp_from_covariance(covariance(), Sign(), al::UniformlySpacedInducingPoints(3), "sparse", al::DenseQRImplementation()); }
struct AsSparse {
  using Model = decltype(make_sparse());
  static Model make() { return make_sparse(); }
  static constexpr bool updates = true, in_place = true, exact = false;
  static const char *kind() { return "sparse"; }
  static const char *name(char n) { return AsGp::name(n); }
  template <typename F> static J data(const F &) { return arr({}); }
};

// ------------------------------------------------------------------ predictions
template <typename T> J whole(const T &v) { // integers for the transparent model
  std::vector<J> o;
  for (long i = 0; i < v.size(); ++i)
    o.push_back(j(std::llround(v[i])));
  return arr(o);
}
struct Answer {
  bool exact;
  J vec(const V &v) const {
    if (exact)
      return whole(v);
    std::vector<J> o;
    for (long i = 0; i < v.size(); ++i)
      o.push_back(j(v[i]));
    return arr(o);
  }
  J of(const V &m) const { return obj({{"mean", vec(m)}}); }
  J of(const al::MarginalDistribution &m) const { return obj({{"mean", vec(m.mean)}, {"variance", vec(m.covariance.diagonal())}}); }
  J of(const al::JointDistribution &m) const {
    std::vector<J> rows;
    for (long i = 0; i < m.covariance.rows(); ++i)
      rows.push_back(vec(m.covariance.row(i)));
    return obj({{"mean", vec(m.mean)}, {"covariance", arr(rows)}});
  }
};
struct AnyPrediction {
  virtual ~AnyPrediction() {}
  virtual J ask(const std::string &kind, int via) const = 0;
  virtual std::size_t size() const = 0;
  virtual std::unique_ptr<AnyPrediction> copy() const = 0;
};
template <typename P, bool Exact> struct Held : AnyPrediction {
  P p;
  explicit Held(const P &x) : p(x) {}
  J ask(const std::string &kind, int via) const override {
    const Answer a{Exact};
    if (kind == "mean")
      return a.of(via == 0 ? V(p.mean()) : via == 1 ? p.template get<V>() : p.get(al::PredictTypeIdentity<V>()));
    if (kind == "marginal")
      return a.of(via == 0 ? p.marginal() : via == 1 ? p.template get<al::MarginalDistribution>() : static_cast<al::MarginalDistribution>(p));
    return a.of(via == 0 ? p.joint() : via == 1 ? p.template get<al::JointDistribution>() : static_cast<al::JointDistribution>(p));
  }
  std::size_t size() const override { return p.size(); }
  std::unique_ptr<AnyPrediction> copy() const override { return std::unique_ptr<AnyPrediction>(new Held(p)); }
};
template <bool Exact, typename P> std::unique_ptr<AnyPrediction> hold(const P &p) { return std::unique_ptr<AnyPrediction>(new Held<P, Exact>(p)); }

// -------------------------------------------------------------------- histories
template <typename K> struct World {
  using Model = typename K::Model;
  using Data = al::RegressionDataset<double>;
  using Fitted = typename std::decay<decltype(K::make().fit(std::declval<Data>()))>::type;
  std::unique_ptr<Model> models[3];
  std::unique_ptr<Fitted> fits[3];
  std::unique_ptr<AnyPrediction> preds[3];
  int refers[3] = {0, 0, 0};

  World() {
    for (int m : {1, 2})
      models[m].reset(new Model(K::make()));
    step({{"op", j("begin")}, {"kind", j(K::kind())}});
  }
  static Data dataset(const Json &d, std::size_t from = 0, std::size_t to = std::string::npos) {
    std::vector<double> xs;
    to = std::min(to, d.size());
    V y(to - from), v(to - from);
    for (std::size_t i = from; i < to; ++i) {
      xs.push_back(d[i][0].get<double>());
      y[static_cast<long>(i - from)] = d[i][1].get<double>();
      v[static_cast<long>(i - from)] = d[i][2].get<double>();
    }
    return Data(xs, al::MarginalDistribution(y, v));
  }
  static std::vector<double> features(const Json &l) { return l.get<std::vector<double>>(); }
  static Fitted fit(const Model &m, const Json &e) {
    const std::string how = e["how"];
    const Data d = dataset(e["data"]);
    if (how == "vectors")
      return m.fit(d.features, d.targets);
    if (how == "two") {
      const std::size_t half = d.size() / 2;
      return m.fit(dataset(e["data"], 0, half), dataset(e["data"], half));
    }
    return m.fit(d);
  }
  void put(int f, Fitted &&x, bool assign) {
    if (fits[f] && assign)
      *fits[f] = std::move(x); // predictions that refer to it follow
    else {
      // a new object at the handle: only when nobody refers to the old one
      for (int p : {1, 2})
        if (refers[p] == f) {
          *fits[f] = std::move(x);
          return;
        }
      fits[f].reset(new Fitted(std::move(x)));
    }
  }
  void drop(int f) {
    for (int p : {1, 2})
      if (refers[p] == f) {
        preds[p].reset();
        refers[p] = 0;
      }
    fits[f].reset();
  }
  template <typename KK = K, std::enable_if_t<KK::updates, int> = 0> static Fitted updated(const Fitted &f, const Json &e) {
    const std::string how = e["how"];
    const Data d = dataset(e["data"]);
    if (how == "vectors")
      return f.update(d.features, d.targets);
    if (how == "dataset")
      return f.update(d);
    return al::update(f, d);
  }
  template <typename KK = K, std::enable_if_t<!KK::updates, int> = 0> static Fitted updated(const Fitted &f, const Json &) { return f; }
  template <typename KK = K, std::enable_if_t<KK::in_place, int> = 0> static void in_place(Fitted &f, const Json &e) {
    const Data d = dataset(e["data"]);
    if (e["how"] == "vectors")
      f.update_in_place(d.features, d.targets);
    else
      f.update_in_place(d);
  }
  template <typename KK = K, std::enable_if_t<!KK::in_place, int> = 0> static void in_place(Fitted &, const Json &) {}
  static bool possible(const Json &e) {
    return (K::updates || e["op"] != "update") && (K::in_place || e["op"] != "update_in_place");
  }
  void apply(const Json &e, bool assign) {
    const std::string op = e["op"];
    auto h = [&](const char *k) { return e.contains(k) ? e[k].get<int>() : 0; };
    const int m = h("m"), f = h("f"), p = h("p"), from = h("from");
    label(std::string(K::kind()) + " " + e.dump());
    if (op == "set")
      models[m]->set_param_value(K::name(e["n"].get<std::string>()[0]), e["v"].get<double>());
    else if (op == "note")
      models[m]->insights["note"] = e["v"].get<std::string>();
    else if (op == "new_model")
      models[m].reset(new Model(K::make()));
    else if (op == "copy_model") {
      if (assign)
        *models[m] = *models[from];
      else if (m != from)
        models[m].reset(new Model(*models[from]));
    } else if (op == "take_model") {
      const Fitted &c = *fits[f];
      models[m].reset(assign ? new Model(c.get_model()) : new Model(fits[f]->get_model()));
    } else if (op == "set_fitted")
      fits[f]->get_model().set_param_value(K::name(e["n"].get<std::string>()[0]), e["v"].get<double>());
    else if (op == "fit")
      put(f, fit(*models[m], e), assign);
    else if (op == "copy_fit") {
      if (f == from)
        *fits[f] = *fits[from];
      else
        put(f, Fitted(*fits[from]), assign);
    } else if (op == "move_fit") {
      put(f, std::move(*fits[from]), assign);
      drop(from);
    } else if (op == "drop_fit")
      drop(f);
    else if (op == "update")
      put(f, updated(*fits[from], e), assign);
    else if (op == "update_in_place")
      in_place(*fits[f], e);
    else if (op == "predict") {
      const auto xs = features(e["xs"]);
      const Fitted &c = *fits[f];
      preds[p] = e["noisy"].get<bool>() ? hold<K::exact>(c.predict_with_measurement_noise(xs)) : hold<K::exact>(c.predict(xs));
      refers[p] = f;
    } else if (op == "predict_moved") {
      const auto xs = features(e["xs"]);
      auto n = e["noisy"].get<bool>() ? hold<K::exact>(std::move(*fits[f]).predict_with_measurement_noise(xs)) : hold<K::exact>(std::move(*fits[f]).predict(xs));
      drop(f);
      preds[p] = std::move(n);
      refers[p] = 0;
    } else if (op == "predict_fresh") {
      const auto xs = features(e["xs"]);
      const Data d = dataset(e["data"]);
      preds[p] = e["noisy"].get<bool>() ? hold<K::exact>(models[m]->fit(d).predict_with_measurement_noise(xs)) : hold<K::exact>(models[m]->fit(d).predict(xs));
      refers[p] = 0;
    } else if (op == "copy_prediction") {
      preds[p] = preds[from]->copy();
      refers[p] = refers[from];
    } else {
      fprintf(stderr, "unknown operation %s\n", op.c_str());
      exit(65);
    }
    step({{"op", j(op)}});
    Log::get().steps.back() = e.dump();
  }
  static J params(const Model &m) {
    const auto it = m.insights.find("note");
    return obj({{"a", j(std::llround(m.get_param_value(K::name('a'))))}, {"b", j(std::llround(m.get_param_value(K::name('b'))))}, {"note", j(it == m.insights.end() ? std::string() : it->second)}});
  }
  void look(Rng &rng, bool all) {
    const J none = obj({{"none", j(true)}});
    std::vector<J> fs;
    for (int f : {1, 2}) {
      const Fitted *c = fits[f].get();
      fs.push_back(c ? obj({{"mp", params(c->get_model())}, {"data", K::data(c->get_fit())}}) : none);
    }
    step({{"op", j("observe")}, {"models", arr({params(*models[1]), params(*models[2])})}, {"fits", arr(fs)}});
    for (int p : {1, 2})
      if (preds[p])
        for (const char *kind : {"mean", "marginal", "joint"})
          if (all || rng.coin())
            step({{"op", j("ask")}, {"p", j(p)}, {"kind", j(kind)}, {"size", j(preds[p]->size())}, {"out", preds[p]->ask(kind, rng.range(0, 2))}});
    if (fits[1] && fits[2])
      for (int f : {1, 2})
        step({{"op", j("equal_fits")}, {"f", j(f)}, {"from", j(3 - f)}, {"out", j(*fits[f] == *fits[3 - f])}});
    for (int f : {1, 2})
      if (fits[f] && rng.chance(1, 4))
        step({{"op", j("equal_fits")}, {"f", j(f)}, {"from", j(f)}, {"out", j(*fits[f] == *fits[f])}});
    step({{"op", j("equal_models")}, {"m", j(1)}, {"from", j(2)}, {"out", j(*models[1] == *models[2])}});
  }
  // a random operation that is possible now
  Json random(Rng &rng) {
    auto data = [&](int lo) {
      Json d = Json::array();
      for (int i = 0; i < rng.range(lo, 4); ++i)
        d.push_back({rng.range(-6, 6), rng.range(-9, 9), rng.range(1, 4)});
      return d;
    };
    auto xs = [&] {
      Json d = Json::array();
      for (int i = 0; i < rng.range(0, 3); ++i)
        d.push_back(rng.range(-5, 5));
      return d;
    };
    const int a = rng.range(1, 2), b = rng.range(1, 2);
    const std::string n = rng.coin() ? "a" : "b";
    const bool noisy = rng.coin();
    while (true)
      switch (rng.range(0, 15)) {
      case 0: return {{"op", "set"}, {"m", a}, {"n", n}, {"v", rng.range(1, 4)}};
      case 1: return {{"op", "note"}, {"m", a}, {"v", n}};
      case 2: return {{"op", "new_model"}, {"m", a}};
      case 3: return {{"op", "copy_model"}, {"m", a}, {"from", b}};
      case 4: if (fits[a]) return {{"op", "take_model"}, {"m", b}, {"f", a}}; break;
      case 5: if (fits[a]) return {{"op", "set_fitted"}, {"f", a}, {"n", n}, {"v", rng.range(1, 4)}}; break;
      case 6:
      case 7: return {{"op", "fit"}, {"f", a}, {"m", b}, {"how", rng.pick(std::vector<std::string>{"vectors", "dataset", "two"})}, {"data", data(2)}};
      case 8: if (fits[b]) return {{"op", "copy_fit"}, {"f", a}, {"from", b}}; break;
      case 9: if (fits[a] && rng.chance(1, 3)) return {{"op", "move_fit"}, {"f", 3 - a}, {"from", a}}; break;
      case 10: if (fits[a] && rng.chance(1, 4)) return {{"op", "drop_fit"}, {"f", a}}; break;
      case 11: if (K::updates && fits[b]) return {{"op", "update"}, {"f", a}, {"from", b}, {"how", rng.pick(std::vector<std::string>{"vectors", "dataset", "free"})}, {"data", data(1)}}; break;
      case 12: if (K::in_place && fits[a]) return {{"op", "update_in_place"}, {"f", a}, {"how", rng.coin() ? "vectors" : "dataset"}, {"data", data(1)}}; break;
      case 13: if (fits[b]) return {{"op", "predict"}, {"p", a}, {"f", b}, {"xs", xs()}, {"noisy", noisy}}; break;
      case 14:
        if (fits[b] && rng.chance(1, 3)) return {{"op", "predict_moved"}, {"p", a}, {"f", b}, {"xs", xs()}, {"noisy", noisy}};
        if (rng.chance(1, 2)) return {{"op", "predict_fresh"}, {"p", a}, {"m", b}, {"data", data(2)}, {"xs", xs()}, {"noisy", noisy}};
        break;
      default: if (preds[a]) return {{"op", "copy_prediction"}, {"p", 3 - a}, {"from", a}}; break;
      }
  }
};
template <typename K> void replay(const Json &ops, Rng &rng) {
  for (const auto &e : ops)
    if (!World<K>::possible(e))
      return;
  {
    World<K> w;
    std::size_t k = 0;
    for (const auto &e : ops) {
      w.apply(e, rng.coin());
      if (++k >= 2)
        w.look(rng, k == ops.size());
    }
  }
  end_behaviour();
}
template <typename K> void wander(int n, Rng &rng) {
  {
    World<K> w;
    for (int i = 0; i < n; ++i) {
      w.apply(w.random(rng), rng.coin());
      w.look(rng, false);
    }
  }
  end_behaviour();
}
int main(int argc, char **argv) {
  const Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  for (const auto &in : read_inputs(args.in)) {
    replay<AsTransparent>(in["ops"], rng);
    if (args.thorough() || rng.chance(1, 8))
      replay<AsGp>(in["ops"], rng);
    if (args.thorough() || rng.chance(1, 12))
      replay<AsSparse>(in["ops"], rng);
  }
  for (int i = 0; i < args.scale(120, 1500); ++i) {
    wander<AsTransparent>(25, rng);
    wander<AsGp>(12, rng);
    wander<AsSparse>(12, rng);
  }
  return finish();
}
