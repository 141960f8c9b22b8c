#define VERIF_EIGEN
#include "common.hpp"
#include "input.hpp"
#include "stops.hpp"
#include <albatross/Core>
#include <albatross/Dataset>
#include <albatross/GP>
#include <albatross/Indexing>
#include <albatross/Samplers>
namespace al = albatross;
using namespace verif;
using P = std::vector<double>;
using Gen = std::default_random_engine;
using Ens = al::EnsembleSamplerState;
static const double inf = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN();
static J jw(const P &p, double lp) { return obj({{"p", j(p)}, {"lp", j(lp)}}); }
static J jw(const al::SamplerState &s) { return obj({{"p", j(s.params)}, {"lp", j(s.log_prob)}, {"accepted", j(s.accepted)}}); }
static J jens(const Ens &e) {
  std::vector<J> o;
  for (const auto &s : e)
    o.push_back(jw(s));
  return arr(o);
}
static bool same(const Ens &a, const Ens &b) {
  if (a.size() != b.size())
    return false;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (a[i].params != b[i].params || a[i].log_prob != b[i].log_prob || a[i].accepted != b[i].accepted)
      return false;
  return true;
}
static bool same(const std::vector<Ens> &a, const std::vector<Ens> &b) {
  bool s = a.size() == b.size();
  for (std::size_t i = 0; s && i < a.size(); ++i)
    s = same(a[i], b[i]);
  return s;
}
// ------------------------------------------------------------------- densities
struct Density {
  int kind;
  double operator()(const P &p) const {
    double q = 0.;
    for (std::size_t i = 0; i < p.size(); ++i)
      q += p[i] * p[i] * (1. + static_cast<double>(i)) + 0.25 * p[i] * p[(i + 1) % p.size()];
    switch (kind) {
    case 0: return -0.5 * q;                                     // smooth
    case 1: return p[0] > 2. ? -inf : -0.25 * q;                 // ends
    case 2: return p[0] < -1. ? nan_ : -0.5 * q;                 // undefined somewhere
    case 3: return p[0] > 3. ? inf : 0.;                         // flat, infinite somewhere
    case 4: return p[0] > 1.5 || p[0] < -1.5 ? -1e300 : 5. - q;  // practically ends
    default: return -20. * q;                                    // narrow
    }
  }
};
struct Recorder { // what the sampler evaluated since it was last asked
  Density f;
  std::vector<J> *evals;
  double operator()(const P &p) const {
    const double lp = f(p);
    evals->push_back(jw(p, lp));
    return lp;
  }
};
struct Iteration {
  std::size_t number;
  std::vector<J> evals; // since the previous one
  Ens ens;
};
struct Callback {
  std::vector<J> *evals;
  std::vector<Iteration> *seen;
  void operator()(std::size_t iteration, const Ens &e) {
    seen->push_back({iteration, *evals, e});
    evals->clear();
  }
};
static void log_move(const Iteration &it) { step({{"op", j("move")}, {"iteration", j(it.number)}, {"evals", arr(it.evals)}, {"ens", jens(it.ens)}}); }
static bool usable(const P &p, double lp) {
  return std::isfinite(lp) && std::all_of(p.begin(), p.end(), [](double x) { return std::isfinite(x); });
}
// one run from positions (log densities are evaluated) or from states (they are given)
static void run(const std::vector<P> &places, const std::vector<double> *given, const Density &f, std::size_t iterations, Rng &rng) {
  const auto seed = static_cast<unsigned>(rng.range(1, 1000000));
  Ens initial;
  long n_usable = 0;
  for (std::size_t i = 0; i < places.size(); ++i) {
    initial.push_back({places[i], given ? (*given)[i] : f(places[i]), true});
    n_usable += usable(places[i], initial[i].log_prob);
  }
  auto sample = [&](Gen &gen, std::vector<J> *evals, std::vector<Iteration> *seen) {
    const Recorder r{f, evals};
    Callback c{evals, seen};
    return given ? al::ensemble_sampler(r, initial, iterations, gen, c) : al::ensemble_sampler(r, places, iterations, gen, c);
  };
  std::vector<J> evals;
  std::vector<Iteration> seen;
  Fields start = {{"op", j("start")}, {"given", jens(initial)}, {"splits", j(2)}, {"a", j(2.)}};
  const bool stopped = n_usable < 3 && stops([&] {
    Gen g(seed);
    sample(g, &evals, &seen);
  });
  start.push_back({"stopped", j(stopped)});
  if (stopped) {
    start.push_back({"evals", arr({})});
    start.push_back({"ens", arr({})});
    single(start);
    return;
  }
  Gen gen(seed);
  const auto out = sample(gen, &evals, &seen);
  if (!given) // the given places themselves
    seen[0].evals.erase(seen[0].evals.begin(), seen[0].evals.begin() + static_cast<long>(places.size()));
  start.push_back({"evals", arr(seen[0].evals)});
  start.push_back({"ens", jens(seen[0].ens)});
  step(start);
  bool as_seen = out.size() == seen.size() && seen[0].number == 0;
  for (std::size_t i = 0; i < seen.size(); ++i) {
    if (i > 0)
      log_move(seen[i]);
    as_seen = as_seen && same(out[i], seen[i].ens);
  }
  if (iterations >= 100)
    step({{"op", j("tally")}});
  step({{"op", j("return")}, {"iterations", j(iterations)}, {"same", j(as_seen)}});
  Gen again(seed);
  std::vector<J> ignored;
  std::vector<Iteration> ignored_too;
  step({{"op", j("repeat")}, {"same", j(same(out, sample(again, &ignored, &ignored_too)) && again == gen)}});
  end_behaviour();
}
static P some_place(int d, Rng &rng) {
  P p;
  for (int i = 0; i < d; ++i)
    p.push_back(rng.dyadic(-12, 12, 0.125));
  return p;
}
// single steps with other splits and stretches
static void moves(bool more, int n, int d, std::size_t splits, double a, const Density &f, int iterations, Rng &rng) {
  label("moves");
  Ens ens;
  while (static_cast<int>(ens.size()) < n) {
    const P p = some_place(d, rng);
    if (usable(p, f(p)))
      ens.push_back({p, f(p), rng.coin()});
  }
  step({{"op", j("start")}, {"given", jens(ens)}, {"ens", jens(ens)}, {"evals", arr({})}, {"stopped", j(false)}, {"splits", j(splits)}, {"a", j(a)}});
  std::default_random_engine gen(static_cast<unsigned>(rng.range(1, 1000000)));
  for (int i = 1; i <= iterations; ++i) {
    std::vector<J> evals;
    ens = al::stretch_move_step(ens, Recorder{f, &evals}, gen, splits, a);
    log_move({static_cast<std::size_t>(i), evals, ens});
  }
  if (more)
    return;
  if (iterations >= 100)
    step({{"op", j("tally")}});
  end_behaviour();
}
// ---------------------------------------------------------------------- models
static al::ParameterStore some_params(Rng &rng) {
  al::ParameterStore s;
  const int n = rng.range(1, 4);
  for (int i = 0; i < n; ++i) {
    const double v = 0.25 * rng.range(1, 8);
    al::ParameterPrior prior;
    const int kind = i == 0 ? 0 : rng.range(0, 4);
    const double lo = 0.125 * rng.range(1, static_cast<int>(8 * v)), hi = v + 0.125 * rng.range(0, 4);
    if (kind == 0)
      prior = al::UniformPrior(lo, hi + 0.125);
    else if (kind == 1)
      prior = al::LogScaleUniformPrior(lo, hi + 0.125);
    else if (kind == 2)
      prior = al::PositivePrior();
    else if (kind == 3)
      prior = al::FixedPrior();
    else
      prior = al::GaussianPrior(0., 1.);
    s["p" + std::to_string(i)] = {v, prior};
  }
  return s;
}
class Bowl : public al::ModelBase<Bowl> { // a model whose likelihood is a function of its parameters
public:
  explicit Bowl(const al::ParameterStore &p) { this->params_ = p; }
  double log_likelihood(const al::RegressionDataset<double> &d) const {
    double q = this->prior_log_likelihood();
    for (const auto &p : params_)
      q -= std::pow(p.second.value - d.targets.mean[0], 2.) * 4.;
    return q;
  }
};
static void bounds(Fields &f, const al::ParameterStore &s) {
  const auto t = al::get_tunable_parameters(s);
  f.push_back({"initial", j(t.values)});
  f.push_back({"lower", j(t.lower_bounds)});
  f.push_back({"upper", j(t.upper_bounds)});
  f.push_back({"params", j(s.size())});
}
template <typename M, typename X> void model_run(const char *name, const M &model, const al::RegressionDataset<X> &data, std::size_t walkers, std::size_t iterations, Rng &rng) {
  label(name);
  std::default_random_engine gen(static_cast<unsigned>(rng.range(1, 1000000)));
  const auto out = al::ensemble_sampler(model, data, walkers, iterations, gen);
  std::vector<J> history;
  for (const auto &ens : out) {
    std::vector<J> ws;
    for (const auto &w : ens) {
      M m(model);
      m.set_tunable_params_values(w.params);
      ws.push_back(obj({{"p", j(w.params)}, {"lp", j(w.log_prob)}, {"want", j(m.log_likelihood(data))}, {"accepted", j(w.accepted)}}));
    }
    history.push_back(arr(ws));
  }
  Fields f = {{"op", j("model")}, {"walkers", j(walkers)}, {"iterations", j(iterations)}, {"history", arr(history)}};
  bounds(f, model.get_params());
  single(f);
}
struct Recording { // a jitter that remembers how far it went
  std::uniform_real_distribution<double> u{-1., 1.};
  double scale, largest = 0.;
  explicit Recording(double s) : scale(s) {}
  double operator()(Gen &gen) {
    const double d = scale * u(gen);
    largest = std::max(largest, std::abs(d));
    return d;
  }
};
static void jitter(const al::ParameterStore &s, std::size_t n, Rng &rng) {
  label("jitter");
  std::default_random_engine gen(static_cast<unsigned>(rng.range(1, 1000000)));
  Recording r(0.25 * rng.range(0, 8));
  const auto out = al::initial_params_from_jitter(s, r, gen, n);
  std::vector<J> o;
  for (const auto &p : out)
    o.push_back(j(p));
  Fields f = {{"op", j("jitter")}, {"walkers", j(n)}, {"out", arr(o)}, {"largest", j(r.largest)}};
  bounds(f, s);
  single(f);
}
int main(int argc, char **argv) {
  const Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  // every pattern of usable walkers, from states and from places
  for (const auto &in : read_inputs(args.in)) {
    label("patterns");
    const int d = rng.range(1, 3);
    std::vector<P> places, where;
    std::vector<double> lps;
    const Density f{rng.range(1, 3)};
    for (const auto &kj : in.at("kinds")) {
      const auto k = kj.get<std::string>();
      P p = some_place(d, rng), q = p;
      q[0] = p[0] = rng.dyadic(-8, 8, 0.125);
      lps.push_back(k == "low" ? -inf : k == "nan" ? nan_ : k == "high" ? inf : f(p));
      if (k == "far")
        p[static_cast<std::size_t>(rng.range(0, d - 1))] = rng.pick(std::vector<double>{inf, -inf, nan_});
      q[0] = k == "ok" ? q[0] : f.kind == 2 ? -8. : 8.;
      places.push_back(p);
      where.push_back(q);
    }
    const auto iterations = static_cast<std::size_t>(rng.range(0, 3));
    run(places, &lps, f, iterations, rng);
    run(where, nullptr, f, iterations, rng);
  }
  for (int i = 0; i < args.scale(12, 80); ++i) {
    label("runs");
    const bool large = i == 7; // far more of everything
    const int d = large ? 9 : rng.range(1, 3), n = large ? 30 : rng.range(3, 7);
    std::vector<P> places;
    for (int k = 0; k < n; ++k)
      places.push_back(some_place(d, rng));
    if (rng.chance(1, 3)) // parameters can be the same across walkers
      for (auto &p : places)
        p.back() = 0.5;
    if (rng.chance(1, 4))
      places.back() = places.front();
    run(places, nullptr, {rng.range(0, 5)}, static_cast<std::size_t>(large ? 4 : rng.range(5, 15)), rng);
    moves(false, rng.range(3, 7), d, static_cast<std::size_t>(rng.range(2, 3)), rng.pick(std::vector<double>{1.5, 2., 4.}), {rng.range(0, 5)}, 10, rng);
  }
  for (int i = 0; i < args.scale(3, 12); ++i) { // long enough to judge frequencies
    label("long runs");
    std::vector<P> places;
    const int d = 1 + i % 3;
    for (int k = 0; k < 6; ++k)
      places.push_back(some_place(d, rng));
    run(places, nullptr, {0}, static_cast<std::size_t>(args.scale(120, 400)), rng);
    for (int k = 0; k < args.scale(4, 10); ++k) // judged together
      moves(k + 1 < args.scale(4, 10), 6, d, 2, i % 2 ? 3. : 2., {k % 2}, args.scale(150, 400), rng);
  }
  for (int i = 0; i < args.scale(30, 200); ++i) {
    const auto s = some_params(rng);
    jitter(s, static_cast<std::size_t>(rng.range(0, 12)), rng);
    const al::RegressionDataset<double> data({0.}, al::MarginalDistribution(Eigen::VectorXd(Eigen::VectorXd::Constant(1, 0.25 * rng.range(0, 8)))));
    model_run("model", Bowl(s), data, static_cast<std::size_t>(rng.range(3, 11)), static_cast<std::size_t>(rng.range(0, 12)), rng);
  }
  for (int i = 0; i < args.scale(2, 10); ++i) {
    al::IndependentNoise<double> noise(1.);
    noise.sigma_independent_noise.prior = al::UniformPrior(0.9, 1.25);
    const auto gp = al::gp_from_covariance(noise + al::SquaredExponential<al::EuclideanDistance>(2., 1.));
    Eigen::VectorXd y(4);
    y << 1., -0.5, 0.25, 2.;
    const al::RegressionDataset<double> data({0., 1., 2., 3.}, al::MarginalDistribution(y));
    model_run("model gp", gp, data, 6, 15, rng);
  }
  return finish();
}
