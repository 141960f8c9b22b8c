// What tuners evaluate and return, in the vocabulary of spec/Tuning.tla.
#define VERIF_EIGEN
#include "common.hpp"
#include "input.hpp"
#include <albatross/Dataset>
#include <albatross/GP>
#include <albatross/Indexing>
#include <albatross/Tune>
#include <mutex>
namespace al = albatross;
using namespace verif;
using al::Parameter;
using al::ParameterStore;
static const double inf = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN();

static J jparams(const ParameterStore &ps) {
  std::vector<J> o;
  for (const auto &p : ps)
    o.push_back(obj({{"n", j(p.first)}, {"v", j(p.second.value)}, {"lo", j(p.second.prior.lower_bound())}, {"hi", j(p.second.prior.upper_bound())}, {"log", j(p.second.prior.is_log_scale())}, {"fixed", j(p.second.is_fixed())}}));
  return arr(o);
}
static J jvalues(const ParameterStore &ps) {
  std::vector<J> o;
  for (const auto &p : ps)
    o.push_back(j(std::make_pair(p.first, p.second.value)));
  return arr(o);
}
static bool same_priors(const ParameterStore &a, const ParameterStore &b) {
  if (a.size() != b.size())
    return false;
  for (auto i = a.begin(), k = b.begin(); i != a.end(); ++i, ++k)
    if (i->first != k->first || !(i->second.prior == k->second.prior))
      return false;
  return true;
}
static bool identical(const ParameterStore &a, const ParameterStore &b) {
  if (!same_priors(a, b))
    return false;
  for (const auto &p : a)
    if (b.at(p.first).value != p.second.value)
      return false;
  return true;
}
struct Quadratic {
  std::vector<double> c;
  Eigen::MatrixXd A;
  double bad_above = inf; // not a number where the first value is larger
  double of(const std::vector<double> &v) const {
    if (v[0] > bad_above)
      return nan_;
    Eigen::VectorXd d(v.size());
    for (std::size_t i = 0; i < v.size(); ++i)
      d[i] = v[i] - c[i];
    return d.dot(A * d);
  }
  double operator()(const ParameterStore &ps) const {
    std::vector<double> v;
    for (const auto &p : ps)
      v.push_back(p.second.value);
    return of(v);
  }
};
static Quadratic quadratic(std::vector<double> c, bool separable, Rng &r) {
  const auto n = static_cast<Eigen::Index>(c.size());
  Eigen::MatrixXd l = Eigen::MatrixXd::Zero(n, n);
  for (Eigen::Index i = 0; i < n; ++i) {
    l(i, i) = r.dyadic(8, 24, 0.0625);
    if (!separable)
      for (Eigen::Index k = 0; k < i; ++k)
        l(i, k) = r.dyadic(-8, 8, 0.0625);
  }
  return {c, l * l.transpose(), inf};
}
static double least_separable(const Quadratic &q, const ParameterStore &ps) {
  double s = 0;
  std::size_t i = 0;
  for (const auto &p : ps) {
    double v = p.second.is_fixed() ? p.second.value : std::min(std::max(q.c[i], p.second.prior.lower_bound()), p.second.prior.upper_bound());
    const auto k = static_cast<Eigen::Index>(i);
    s += q.A(k, k) * (v - q.c[i]) * (v - q.c[i]);
    ++i;
  }
  return s;
}
static Parameter parameter(const std::string &kind, const std::string &at, bool log, Rng &r) {
  if (kind == "fixed")
    return {r.dyadic(-16, 16, 0.25), al::FixedPrior()};
  if (kind == "free") {
    if (r.coin())
      return {r.dyadic(-16, 16, 0.25), al::UninformativePrior()};
    return {r.dyadic(-16, 16, 0.25), al::GaussianPrior(0.5, 3.)};
  }
  if (kind == "lower") {
    if (at == "low")
      return {0., al::NonNegativePrior()};
    if (at == "inside" && r.coin())
      return {r.dyadic(1, 16, 0.25), al::PositivePrior()};
    return {r.dyadic(1, 16, 0.25), al::NonNegativePrior()};
  }
  double lo = log ? r.dyadic(1, 8, 0.25) : r.dyadic(-16, 4, 0.25), hi = lo + r.dyadic(2, 32, 0.25);
  if (!log && r.chance(1, 5)) {
    lo = 0.;
    const double s = r.dyadic(1, 4, 0.25);
    return {at == "low" ? 0. : at == "high" ? 10. * s : 5. * s, al::PositiveGaussianPrior(0., s)};
  }
  const double v = at == "low" ? lo : at == "high" ? hi : lo + (hi - lo) * r.range(1, 7) / 8.;
  if (log)
    return {v, al::LogScaleUniformPrior(lo, hi)};
  return {v, al::UniformPrior(lo, hi)};
}
static const char *kinds[] = {"both", "lower", "free", "fixed"}, *places[] = {"low", "inside", "high"};
static ParameterStore some_params(int n, Rng &r, bool with_fixed = true) {
  ParameterStore ps;
  for (int i = 0; i < n; ++i)
    ps[std::string(1, static_cast<char>('a' + (i * 7) % 26)) + std::to_string(i)] = parameter(kinds[r.range(0, with_fixed ? 3 : 2)], places[r.range(0, 2)], r.chance(1, 4), r);
  return ps;
}
static std::vector<double> some_center(const ParameterStore &ps, Rng &r) {
  std::vector<double> c;
  for (const auto &p : ps) {
    (void)p;
    c.push_back(r.dyadic(-24, 24, 0.25));
  }
  return c;
}
struct Begin {
  std::string method = "search";
  double out = 0, optimum = nan_;
  std::size_t n = 0, rounds = 0;
  std::vector<std::size_t> sets;
  int budget = 0; // evaluations allowed, if any
};
static void begin(const Begin &b, const J &params) {
  step({{"op", j("start")}, {"method", j(b.method)}, {"params", params}, {"out", j(b.out)}, {"optimum", std::isnan(b.optimum) ? j("none") : j(b.optimum)}, {"n", j(b.n)}, {"rounds", j(b.rounds)}, {"sets", j(b.sets)}, {"budget", j(b.budget)}});
}
static void result(const J &p, bool priors, bool untouched, double out) {
  step({{"op", j("result")}, {"p", p}, {"same_priors", j(priors)}, {"untouched", j(untouched)}, {"out", j(out)}});
}
static J jnumbered(const std::vector<double> &x) {
  std::vector<J> o;
  for (std::size_t i = 0; i < x.size(); ++i)
    o.push_back(j(std::make_pair(std::to_string(i), x[i])));
  return arr(o);
}
static std::shared_ptr<ThreadPool> some_pool(Rng &r) {
  return r.coin() ? std::make_shared<ThreadPool>(static_cast<std::size_t>(r.range(1, 4))) : nullptr;
}

static void search(const ParameterStore &ps, const Quadratic &q, bool separable, bool gradient, bool brief, Rng &r) {
  std::ostringstream os;
  al::GenericTuner tuner(ps, os);
  if (gradient) {
    tuner.optimizer = al::default_gradient_optimizer(ps);
    tuner.threads = some_pool(r);
  } else if (r.chance(1, 4))
    tuner.optimizer = al::default_optimizer(ps, nlopt::LN_NELDERMEAD);
  const bool bad = std::isfinite(q.bad_above);
  Begin b;
  b.method = gradient ? "gradient" : "search";
  b.out = q(ps);
  if (brief) {
    b.budget = r.range(1, 40);
    tuner.optimizer.set_maxeval(b.budget);
  } else {
    tuner.optimizer.set_maxeval(2000);
    bool at_bound = false; // where a simplex has no room it may stop at once
    for (const auto &p : ps)
      at_bound = at_bound || p.second.value <= p.second.prior.lower_bound() || p.second.value >= p.second.prior.upper_bound();
    if (separable && !bad && (gradient || !at_bound))
      b.optimum = least_separable(q, ps);
  }
  begin(b, jparams(ps));
  std::mutex m;
  bool logging = true;
  auto f = [&](const ParameterStore &p) {
    const double out = q(p);
    std::lock_guard<std::mutex> lock(m);
    if (logging)
      step({{"op", j("eval")}, {"p", jvalues(p)}, {"out", j(out)}});
    return out;
  };
  try {
    const auto got = tuner.tune(f);
    logging = false;
    result(jvalues(got), same_priors(got, ps), identical(tuner.initial_params, ps), q(got));
  } catch (const std::exception &) {
    step({{"op", j("gave_up")}});
  }
  end_behaviour();
}
// objectives of plain vectors
static void vectors(Rng &r) {
  const int n = r.chance(1, 12) ? r.range(20, 40) : r.chance(1, 3) ? r.range(11, 13) : r.range(1, 10);
  std::vector<double> x0, c;
  for (int i = 0; i < n; ++i) {
    x0.push_back(r.dyadic(-24, 24, 0.25));
    c.push_back(r.dyadic(-24, 24, 0.25));
  }
  const bool separable = r.coin();
  const auto q = quadratic(c, separable, r);
  std::ostringstream os;
  al::GenericTuner tuner(x0, os);
  const bool gradient = r.chance(1, 3);
  if (gradient) {
    tuner.optimizer = al::default_gradient_optimizer(tuner.initial_params);
    tuner.threads = some_pool(r);
  }
  Begin b;
  if (separable && r.coin()) { // zero at the centre
    tuner.optimizer.set_maxeval(gradient ? 500 : 5000);
    b.optimum = gradient || n <= 4 ? 0. : nan_;
  } else {
    b.budget = r.range(1, 60);
    tuner.optimizer.set_maxeval(b.budget);
  }
  b.method = gradient ? "gradient" : "search";
  b.out = q.of(x0);
  std::vector<J> ps;
  for (int i = 0; i < n; ++i)
    ps.push_back(obj({{"n", j(std::to_string(i))}, {"v", j(x0[static_cast<std::size_t>(i)])}, {"lo", j(-inf)}, {"hi", j(inf)}, {"log", j(false)}, {"fixed", j(false)}}));
  begin(b, arr(ps));
  std::mutex m;
  auto f = [&](const std::vector<double> &x) {
    const double out = q.of(x);
    std::lock_guard<std::mutex> lock(m);
    step({{"op", j("eval")}, {"p", jnumbered(x)}, {"out", j(out)}});
    return out;
  };
  auto g = [&](const Eigen::VectorXd &x) { return f(std::vector<double>(x.data(), x.data() + x.size())); };
  try {
    std::vector<double> got;
    if (r.coin())
      got = tuner.tune(f);
    else {
      const Eigen::VectorXd v = tuner.tune(g);
      got.assign(v.data(), v.data() + v.size());
    }
    result(jnumbered(got), true, true, q.of(got));
  } catch (const std::exception &) {
    step({{"op", j("gave_up")}});
  }
  end_behaviour();
}
static void greedy(const ParameterStore &ps, const Quadratic &q, std::size_t n, std::size_t rounds, Rng &r) {
  const auto given = ps;
  Begin b;
  b.method = "greedy";
  b.out = q(ps);
  b.n = n;
  b.rounds = rounds;
  begin(b, jparams(ps));
  std::mutex m;
  auto f = [&](const ParameterStore &p) {
    const double out = q(p);
    std::lock_guard<std::mutex> lock(m);
    step({{"op", j("eval")}, {"p", jvalues(p)}, {"out", j(out)}});
    return out;
  };
  const auto pool = some_pool(r);
  std::ostringstream os;
  const auto got = al::greedy_tune(f, ps, n, rounds, pool.get(), r.coin() ? &os : nullptr);
  result(jvalues(got), same_priors(got, ps), identical(given, ps), q(got));
  end_behaviour();
}
static void gradient(const ParameterStore &ps, const Quadratic &q, Rng &r) {
  std::mutex m;
  std::vector<J> evals;
  auto f = [&](const ParameterStore &p) {
    const double out = q(p);
    std::lock_guard<std::mutex> lock(m);
    evals.push_back(jvalues(p));
    return out;
  };
  const auto pool = some_pool(r);
  const auto out = al::compute_gradient(f, ps, q(ps), pool.get());
  std::vector<J> rows;
  single({{"op", j("gradient")}, {"params", jparams(ps)}, {"A", jm(q.A)}, {"c", j(q.c)}, {"evals", arr(evals)}, {"out", j(out)}});
}
static void vector_gradient(Rng &r) {
  std::vector<double> x, c;
  const int n = r.range(1, 9);
  for (int i = 0; i < n; ++i) {
    x.push_back(r.dyadic(-24, 24, 0.25));
    c.push_back(r.dyadic(-24, 24, 0.25));
  }
  const auto q = quadratic(c, r.coin(), r);
  std::mutex m;
  std::vector<J> evals, ps;
  auto f = [&](const std::vector<double> &p) {
    const double out = q.of(p);
    std::lock_guard<std::mutex> lock(m);
    evals.push_back(jnumbered(p));
    return out;
  };
  for (int i = 0; i < n; ++i)
    ps.push_back(obj({{"n", j(std::to_string(i))}, {"v", j(x[static_cast<std::size_t>(i)])}, {"lo", j(-inf)}, {"hi", j(inf)}, {"log", j(false)}, {"fixed", j(false)}}));
  const auto pool = some_pool(r);
  const auto out = al::compute_gradient(f, x, q.of(x), pool.get());
  single({{"op", j("gradient")}, {"params", arr(ps)}, {"A", jm(q.A)}, {"c", j(q.c)}, {"evals", arr(evals)}, {"out", j(out)}});
}

// ------------------------------------------------------------ model tuners
static Quadratic *g_q = nullptr;
struct Score : public al::ModelMetric<Score> {
  template <typename X, typename M> double _call_impl(const al::RegressionDataset<X> &d, const al::ModelBase<M> &model) const {
    const auto ps = model.get_params();
    const double out = (*g_q)(ps) + 0.5 * static_cast<double>(d.size());
    step({{"op", j("metric")}, {"p", jvalues(ps)}, {"set", j(d.size())}, {"out", j(out)}});
    return out;
  }
};
static double g_penalty = 0;
static double aggregate(const std::vector<double> &v) {
  double out = g_penalty;
  for (double x : v)
    out = std::max(out, x); // worst of all
  step({{"op", j("aggregate")}, {"values", j(v)}, {"out", j(out)}});
  return out;
}
static al::RegressionDataset<double> data_of(std::size_t n, Rng &r) {
  std::vector<double> xs;
  Eigen::VectorXd y(static_cast<Eigen::Index>(n));
  for (std::size_t i = 0; i < n; ++i) {
    xs.push_back(static_cast<double>(i));
    y[static_cast<Eigen::Index>(i)] = r.dyadic(-8, 8, 0.25);
  }
  return {xs, y};
}
static void model_tuner(Rng &r) {
  const auto cov = al::SquaredExponential<al::EuclideanDistance>(2., 1.5) + al::IndependentNoise<double>(0.5);
  auto model = al::gp_from_covariance(cov);
  for (const auto &p : model.get_params())
    model.set_param(p.first, parameter(kinds[r.range(0, 1)], places[r.range(0, 2)], r.chance(1, 4), r));
  const auto ps = model.get_params();
  if (r.chance(1, 3))
    model.set_param(ps.begin()->first, Parameter(1.25, al::FixedPrior()));
  const auto given = model.get_params();
  auto q = quadratic(some_center(given, r), r.coin(), r);
  g_q = &q;
  g_penalty = r.dyadic(0, 8);
  std::vector<al::RegressionDataset<double>> sets;
  Begin b;
  const int k = r.range(1, 3);
  for (int i = 0; i < k; ++i) {
    b.sets.push_back(static_cast<std::size_t>(r.range(1, 9)));
    sets.push_back(data_of(b.sets.back(), r));
  }
  auto value = [&](const ParameterStore &p) {
    double out = g_penalty;
    for (auto s : b.sets)
      out = std::max(out, q(p) + 0.5 * static_cast<double>(s));
    return out;
  };
  b.out = value(given);
  b.budget = r.range(1, 40);
  begin(b, jparams(given));
  std::ostringstream os;
  auto run = [&](auto tuner) {
    if (r.chance(1, 3))
      tuner.initialize_optimizer(nlopt::LN_NELDERMEAD);
    tuner.optimizer.set_maxeval(b.budget);
    const auto got = tuner.tune();
    result(jvalues(got), same_priors(got, given), identical(tuner.model.get_params(), given) && identical(model.get_params(), given), value(got));
  };
  if (k == 1 && r.coin())
    run(al::get_tuner(model, Score(), sets[0], aggregate, os));
  else
    run(al::get_tuner(model, Score(), sets, aggregate, os));
  end_behaviour();
}
// with the metrics of the library
static void library_metric(Rng &r) {
  const auto cov = al::SquaredExponential<al::EuclideanDistance>(2., 1.5) + al::IndependentNoise<double>(0.5);
  auto model = al::gp_from_covariance(cov);
  if (r.coin())
    model.set_prior(model.get_params().begin()->first, al::GaussianPrior(2.5, 0.5));
  const auto given = model.get_params();
  std::vector<al::RegressionDataset<double>> sets{data_of(static_cast<std::size_t>(r.range(3, 6)), r), data_of(4, r)};
  std::ostringstream os;
  auto run = [&](const auto &metric) {
    auto value = [&](const ParameterStore &p) {
      auto m = model;
      m.set_params(p);
      return 0.5 * (metric(sets[0], m) + metric(sets[1], m));
    };
    Begin b;
    b.method = "opaque";
    b.out = value(given);
    begin(b, jparams(given));
    auto tuner = al::get_tuner(model, metric, sets, al::mean_aggregator, os);
    tuner.optimizer.set_maxeval(r.range(5, 30));
    const auto got = tuner.tune();
    result(jvalues(got), same_priors(got, given), identical(tuner.model.get_params(), given), value(got));
  };
  if (r.coin())
    run(al::LeaveOneOutLikelihood<>());
  else
    run(al::LeaveOneOutRMSE());
  end_behaviour();
}
int main(int argc, char **argv) {
  const auto args = parse_args(argc, argv);
  Rng r(args.seed);
  for (const auto &x : read_inputs(args.in)) {
    ParameterStore ps;
    std::vector<double> c;
    for (int i = 0; i < 2; ++i) {
      ps[std::string(1, static_cast<char>('a' + i))] = parameter(x["kinds"][i].get<std::string>(), x["starts"][i].get<std::string>(), x["log"].get<bool>(), r);
      c.push_back(std::stod(x["center"][i].get<std::string>()));
    }
    if (x["kinds"][0] == "fixed" && x["kinds"][1] == "fixed")
      continue;
    const bool separable = r.coin();
    auto q = quadratic(c, separable, r);
    label("enumerated gradient");
    gradient(ps, q, r);
    switch (r.range(0, args.scale(5, 2))) {
    case 0:
      label("enumerated greedy");
      greedy(ps, q, static_cast<std::size_t>(r.range(1, 3)), static_cast<std::size_t>(r.range(1, 3)), r);
      break;
    case 1:
      label("enumerated search");
      search(ps, q, separable, false, true, r);
      break;
    case 2:
      label("enumerated gradient search");
      search(ps, q, separable, true, r.coin(), r);
      break;
    }
  }
  for (int i = 0; i < args.scale(60, 600); ++i) {
    const auto ps = some_params(r.range(1, 5), r);
    if (al::get_tunable_parameters(ps).values.empty())
      continue;
    const bool separable = r.coin();
    auto q = quadratic(some_center(ps, r), separable, r);
    label("random gradient");
    gradient(ps, q, r);
    auto close = ps; // just inside a bound, closer than a step
    for (auto &p : close) {
      const double lo = p.second.prior.lower_bound(), hi = p.second.prior.upper_bound(), gap = std::ldexp(hi - lo, -r.range(27, 33));
      if (!p.second.is_fixed() && std::isfinite(gap))
        p.second.value = r.chance(2, 3) ? hi - gap : lo + gap;
    }
    label("gradient close to a bound");
    gradient(close, q, r);
    if (r.chance(1, 6) && !ps.begin()->second.is_fixed())
      q.bad_above = ps.begin()->second.value;
    label("random greedy");
    greedy(ps, q, static_cast<std::size_t>(r.range(1, 4)), static_cast<std::size_t>(r.range(1, 4)), r);
    label("random search");
    search(ps, q, separable, false, r.chance(3, 4), r);
    q.bad_above = inf;
    label("random gradient search");
    search(ps, q, separable, true, r.coin(), r);
    label("vector gradient");
    vector_gradient(r);
  }
  for (int i = 0; i < args.scale(60, 400); ++i) {
    label("vectors");
    vectors(r);
    label("models");
    model_tuner(r);
  }
  for (int i = 0; i < args.scale(12, 100); ++i) {
    label("library metrics");
    library_metric(r);
  }
  for (int i = 0; i < args.scale(30, 200); ++i) {
    label("means");
    std::vector<double> v(static_cast<std::size_t>(r.range(0, 6)));
    for (auto &x : v)
      x = r.dyadic();
    single({{"op", j("mean")}, {"values", j(v)}, {"out", j(al::mean_aggregator(v))}});
  }
  return finish();
}
