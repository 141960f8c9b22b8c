#pragma once
#include "kernels.hpp"
using albatross::operator*;

using VDS = Var<double, Site>;
template <typename X> using LC = al::LinearCombination<X>;
template <> struct Gen<Var<double, LC<double>>> {
  static Var<double, LC<double>> make(Rng &r) {
    Var<double, LC<double>> v = Gen<double>::make(r);
    if (r.coin())
      v = Gen<LC<double>>::make(r);
    return v;
  }
};
template <typename C, typename X, typename Y> void pair_of(const C &cov, Rng &rng, int n) {
  if constexpr (al::has_valid_caller<C, X, Y>::value) {
    for (int i = 0; i < n; ++i) {
      const X x = Gen<X>::make(rng);
      const Y y = Gen<Y>::make(rng);
      step({{"op", j("cov")}, {"x", jf(x)}, {"y", jf(y)}, {"out", j(double(cov(x, y)))}});
      if constexpr (std::is_same<X, Y>::value)
        step({{"op", j("cov")}, {"x", jf(x)}, {"y", jf(x)}, {"out", j(double(cov(x, x)))}});
    }
  }
}
inline Eigen::MatrixXd random_matrix(int r, int c, Rng &rng) {
  Eigen::MatrixXd A(r, c);
  for (int i = 0; i < r; ++i)
    for (int k = 0; k < c; ++k)
      A(i, k) = rng.chance(1, 3) ? 0. : rng.dyadic(-6, 6, 0.5);
  return A;
}
template <typename C, typename X> void arrays(const C &cov, Rng &rng) {
  if constexpr (al::has_valid_caller<C, X, X>::value) {
    const auto xs = features<X>(rng.size(0, 4, 24, 30), rng), ys = features<X>(rng.size(0, 4, 24, 30), rng);
    ThreadPool pool(3);
    step({{"op", j("gram")}, {"xs", jfs(xs)}, {"out", jm(cov(xs, rng.coin() ? &pool : nullptr))}});
    step({{"op", j("matrix")}, {"xs", jfs(xs)}, {"ys", jfs(ys)}, {"out", jm(cov(xs, ys, rng.coin() ? &pool : nullptr))}});
    step({{"op", j("diag")}, {"xs", jfs(xs)}, {"out", jv(cov.diagonal(xs))}});
  }
}
// which: 1 measurements of combinations are meaningful for this expression
template <typename C> void combinations(const E<C> &e, Rng &rng, const Args &args, bool measured) {
  label("combinations " + e.name);
  const C &c = e.cov;
  const int n = args.scale(4, 20);
  step({{"op", j("expr")}, {"expr", e.tree}});
  using V = Eigen::VectorXd;
  pair_of<C, LC<double>, LC<double>>(c, rng, n);
  pair_of<C, LC<double>, double>(c, rng, n);
  pair_of<C, double, LC<double>>(c, rng, n);
  pair_of<C, LC<V>, LC<V>>(c, rng, n);
  pair_of<C, LC<Site>, LC<double>>(c, rng, n);
  pair_of<C, LC<double>, Site>(c, rng, n);
  pair_of<C, LC<VDS>, LC<VDS>>(c, rng, n);
  pair_of<C, LC<VDS>, double>(c, rng, n);
  pair_of<C, VDS, LC<VDS>>(c, rng, n);
  using Mixed = Var<double, LC<double>>;
  pair_of<C, Mixed, Mixed>(c, rng, n);
  pair_of<C, Mixed, double>(c, rng, n);
  if (measured) {
    using MLC = al::Measurement<LC<double>>;
    pair_of<C, MLC, MLC>(c, rng, n);
    pair_of<C, MLC, LC<double>>(c, rng, n);
    pair_of<C, double, MLC>(c, rng, n);
    pair_of<C, al::Measurement<double>, MLC>(c, rng, n);
    pair_of<C, al::Measurement<LC<VDS>>, al::Measurement<LC<VDS>>>(c, rng, n);
    pair_of<C, al::Measurement<LC<VDS>>, VDS>(c, rng, n);
    arrays<C, MLC>(c, rng);
  }
  for (int i = 0; i < args.scale(2, 6); ++i) {
    arrays<C, LC<double>>(c, rng);
    arrays<C, LC<VDS>>(c, rng);
    arrays<C, Mixed>(c, rng);
  }
  end_behaviour();
}

template <typename D> J jjoint(const D &d) { return obj({{"mean", jv(d.mean)}, {"cov", jm(d.covariance)}}); }
inline J jmarg(const al::MarginalDistribution &d) {
  return obj({{"mean", jv(d.mean)}, {"var", jv(d.covariance.diagonal())}});
}
template <typename X, typename P> void mapped(const P &fit, const std::vector<X> &xs, const Eigen::MatrixXd &A, Rng &rng) {
  const auto combos = A * xs;
  const al::JointDistribution plain = fit.predict(xs).joint();
  const auto pred = fit.predict(combos);
  step({{"op", j("mapped")}, {"A", jm(A)}, {"plain", jjoint(plain)}, {"combined", jjoint(pred.joint())}, {"mean", jv(pred.mean())}, {"marginal", jmarg(pred.marginal())}});
  if (rng.chance(1, 3)) {
    step({{"op", j("posterior")}, {"xs", jfs(combos)}, {"out", jjoint(pred.joint())}});
  }
}
template <typename X, typename C, typename M> void process(const E<C> &c, const E<M> &m, Rng &rng, const Args &args) {
  label("process " + c.name + " " + m.name);
  const auto model = al::gp_from_covariance_and_mean(c.cov, m.cov);
  for (int i = 0; i < args.scale(3, 15); ++i) {
    step({{"op", j("expr")}, {"expr", c.tree}});
    step({{"op", j("mean_expr")}, {"expr", m.tree}});
    const auto xs = features<X>(i % 15 == 2 ? rng.range(14, 24) : rng.range(1, 5), rng);
    const Eigen::MatrixXd A = random_matrix(i % 15 == 2 ? rng.range(4, 14) : rng.range(1, 3), static_cast<int>(xs.size()), rng);
    const auto combos = A * xs;
    step({{"op", j("as_map")}, {"A", jm(A)}, {"xs", jfs(xs)}, {"out", obj({{"mean", jv(m.cov(combos))}, {"cov", jm(c.cov(combos))}})}});
    step({{"op", j("prior")}, {"xs", jfs(combos)}, {"out", jjoint(model.prior(combos))}});
    const int n = i % 15 == 2 ? rng.range(10, 16) : rng.range(1, 4);
    Eigen::VectorXd y(n), noise(n);
    for (int k = 0; k < n; ++k) {
      y[k] = rng.dyadic();
      noise[k] = rng.dyadic(1, 16, 0.25);
    }
    const al::MarginalDistribution targets(y, noise);
    if (i % 2) {
      const auto train = features<X>(n, rng);
      step({{"op", j("fit")}, {"xs", jfs(train)}, {"y", jv(y)}, {"noise", jv(noise)}});
      const auto fit = model.fit(al::RegressionDataset<X>(train, targets));
      mapped(fit, xs, A, rng);
      step({{"op", j("posterior")}, {"xs", jfs(combos)}, {"out", jjoint(fit.predict(combos).joint())}});
    } else {
      const auto train = features<LC<X>>(n, rng);
      step({{"op", j("fit")}, {"xs", jfs(train)}, {"y", jv(y)}, {"noise", jv(noise)}});
      const auto fit = model.fit(al::RegressionDataset<LC<X>>(train, targets));
      mapped(fit, xs, A, rng);
      step({{"op", j("posterior")}, {"xs", jfs(xs)}, {"out", jjoint(fit.predict(xs).joint())}});
    }
    end_behaviour();
  }
}
void lc_a(Rng &rng, const Args &args);
void lc_b(Rng &rng, const Args &args);
void lc_c(Rng &rng, const Args &args);
