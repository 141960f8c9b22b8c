#include "cov_check.hpp"

template <typename M> void one_mean(const E<M> &e, Rng &rng, const Args &args) {
  label("mean " + e.name);
  M m = e.cov;
  using V = Var<double, Site>;
  using VM = Var<al::Measurement<double>, al::Measurement<Site>>;
  step({{"op", j("mean_expr")}, {"expr", e.tree}});
  auto params = m.get_params();
  std::vector<std::string> names = {""};
  for (const auto &kv : params)
    names.push_back(kv.first);
  for (const auto &n : names) {
    if (!n.empty()) {
      const double v = rng.dyadic(-16, 16, 0.25);
      m.set_param_value(n, v);
      step({{"op", j("mean_set")}, {"name", j(n)}, {"value", j(v)}});
    }
    step({{"op", j("mean_params")}, {"out", jparams(m.get_params())}});
    auto eval = [&](auto tag) {
      using X = decltype(tag);
      if constexpr (al::has_valid_caller<M, X>::value) {
        for (int i = 0; i < args.scale(3, 12); ++i) {
          const X x = Gen<X>::make(rng);
          step({{"op", j("mean")}, {"x", jf(x)}, {"out", j(double(m(x)))}});
        }
        const auto xs = features<X>(rng.range(0, 5), rng);
        step({{"op", j("mean_vector")}, {"xs", jfs(xs)}, {"out", jv(m(xs))}});
        Eigen::VectorXd t(static_cast<Eigen::Index>(xs.size()));
        for (Eigen::Index i = 0; i < t.size(); ++i)
          t[i] = rng.dyadic();
        Eigen::VectorXd plus = t, minus = t;
        m.add_to(xs, &plus);
        m.remove_from(xs, &minus);
        step({{"op", j("add_to")}, {"xs", jfs(xs)}, {"target", jv(t)}, {"out", jv(plus)}});
        step({{"op", j("remove_from")}, {"xs", jfs(xs)}, {"target", jv(t)}, {"out", jv(minus)}});
      }
    };
    eval(double());
    eval(Site());
    eval(al::Measurement<double>());
    eval(al::Measurement<Site>());
    eval(V());
    eval(VM());
    eval(al::LinearCombination<double>());
    eval(al::LinearCombination<V>());
    eval(al::Measurement<al::LinearCombination<double>>());
  }
  end_behaviour();
}

template <typename M, typename X> void distances(Rng &rng, int n) {
  M m;
  for (int i = 0; i < n; ++i) {
    X x = Gen<X>::make(rng), y = Gen<X>::make(rng);
    if constexpr (std::is_same<X, Eigen::VectorXd>::value) {
      if (rng.chance(1, 3))
        y = -x * rng.dyadic(1, 8, 0.5);
      else if (rng.chance(1, 3))
        y = x * rng.dyadic(1, 8, 0.5);
      else if (rng.coin()) // nearly parallel or opposite
        y = x * (rng.coin() ? -2. : 1.) + std::ldexp(1., rng.range(-20, -5)) * Eigen::Vector2d(-x[1], x[0]);
    }
    single({{"op", j("distance")}, {"metric", j(MetricName<M>::n())}, {"x", jf(x)}, {"y", jf(y)}, {"out", j(double(m(x, y)))}});
  }
  if constexpr (!std::is_same<M, al::AngularDistance>::value) {
    const auto xs = features<X>(rng.range(0, 4), rng);
    single({{"op", j("distance_matrix")}, {"metric", j(MetricName<M>::n())}, {"xs", jfs(xs)}, {"out", jm(al::distance_matrix(m, xs))}});
  }
}

void length_scales(Rng &rng, const Args &args) {
  auto log = [](const char *kind, double ref, double sigma, double inc, double out) {
    single({{"op", j("length_scale")}, {"kind", j(kind)}, {"ref", j(ref)}, {"sigma", j(sigma)}, {"inc", j(inc)}, {"out", j(out)}});
  };
  auto all = [&](double ref, double sigma, double inc) {
    log("se", ref, sigma, inc, al::SquaredExponential<Euclid>().derive_length_scale(ref, sigma, inc));
    log("exp", ref, sigma, inc, al::Exponential<Euclid>().derive_length_scale(ref, sigma, inc));
    log("m32", ref, sigma, inc, al::Matern32<Euclid>().derive_length_scale(ref, sigma, inc));
    log("m52", ref, sigma, inc, al::Matern52<Euclid>().derive_length_scale(ref, sigma, inc));
  };
  for (double ref : {0.001, 1., 300.})
    for (double sigma : {0.5, 1., 20.}) {
      for (double f : {0.001, 0.01, 0.1, 0.3, 0.5, 0.9, 0.99})
        all(ref, sigma, f * sigma);
      for (double inc : {0., -1., sigma, 2 * sigma})
        all(ref, sigma, inc);
      all(ref, 0., 0.5);
      all(ref, -1., 0.5);
    }
  for (int i = 0; i < args.scale(60, 2000); ++i) {
    const double ref = rng.dyadic(1, 4000, 0.125), sigma = rng.dyadic(1, 400, 0.125);
    all(ref, sigma, sigma * rng.range(1, 999) / 1000.);
    const double ell = rng.dyadic(1, 400, 0.125), d = rng.dyadic(1, 400, 0.125);
    auto growth = [&](const char *kind, auto f) {
      single({{"op", j("growth")}, {"kind", j(kind)}, {"d", j(d)}, {"ell", j(ell)}, {"sigma", j(sigma)}, {"out", j(al::process_noise_equivalent([&](double x) { return f(x, ell, sigma); }, d))}});
    };
    growth("se", al::squared_exponential_covariance);
    growth("exp", al::exponential_covariance);
    growth("m32", al::matern_32_covariance);
    growth("m52", al::matern_52_covariance);
  }
}

void grids(Rng &rng, const Args &args) {
  for (int i = 0; i < args.scale(60, 600); ++i) {
    const auto xs = features<double>(rng.range(1, 6), rng);
    const double ell = rng.pick(std::vector<double>{0.25, 0.5, 2., 64.});
    const double lo = *std::min_element(xs.begin(), xs.end()), hi = *std::max_element(xs.begin(), xs.end());
    auto log = [&](int per, const std::vector<double> &out) {
      single({{"op", j("grid")}, {"lo", j(lo)}, {"hi", j(hi)}, {"ell", j(ell)}, {"per", j(per)}, {"out", j(out)}});
    };
    const auto a = se(ell, 1.).cov;
    const auto b = expo(ell, 1.).cov;
    log(10, a.state_space_representation(xs));
    log(20, b.state_space_representation(xs));
    log(10, (a + al::Constant(1.)).state_space_representation(xs));
    log(20, (al::Constant(1.) * b).state_space_representation(xs));
    // the representation of a sum lists that of its parts in turn
    const auto both = (a + b).state_space_representation(xs);
    const std::size_t n = a.state_space_representation(xs).size();
    log(10, std::vector<double>(both.begin(), both.begin() + static_cast<long>(n)));
    log(20, std::vector<double>(both.begin() + static_cast<long>(n), both.end()));
  }
}

int main(int argc, char **argv) {
  const Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  for (int r = 0; r < args.scale(1, 4); ++r) {
    exercise_a(rng, args);
    exercise_b(rng, args);
    exercise_c(rng, args);
    exercise_d(rng, args);
    for (int i = 0; i < 3; ++i) {
      one_mean(zero_mean(), rng, args);
      one_mean(linear_mean(2., -1.), rng, args);
      one_mean(linear_mean(2., -1.) + site_mean(3.), rng, args);
      one_mean(linear_mean(2., -1.) * site_mean(3.), rng, args);
      one_mean(zero_mean() + linear_mean(0.5, 1.), rng, args);
      one_mean((zero_mean() + linear_mean(0.5, 1.)) * site_mean(0.25), rng, args);
      one_mean(site_mean(0.5) * zero_mean(), rng, args);
      one_mean(bias_mean(1.5), rng, args);
      one_mean(linear_mean(2., -1.) * bias_mean(1.5) + site_mean(3.), rng, args);
      one_mean(bias_mean<Site>(2.) + linear_mean(0.5, 1.), rng, args);
    }
  }
  distances<Euclid, double>(rng, args.scale(50, 500));
  distances<Euclid, Eigen::VectorXd>(rng, args.scale(50, 500));
  distances<al::RadialDistance, Eigen::VectorXd>(rng, args.scale(50, 500));
  distances<al::AngularDistance, Eigen::VectorXd>(rng, args.scale(100, 500));
  length_scales(rng, args);
  grids(rng, args);
  return finish();
}
