// What a sparse Gaussian process did, in the vocabulary of spec/SparseGP.tla.
#pragma once
#include "gp_check.hpp"
#include <albatross/SparseGP>
using Labels = std::vector<std::string>;

// ------------------------------------------------------------------ groupers
struct ByTable { // any assignment of groups to places
  std::map<double, int> table;
  int operator()(const double &x) const { return table.at(x); }
};
struct ByInterval {
  double width = 3.;
  std::string operator()(const double &x) const { return "interval" + std::to_string(static_cast<int>(std::floor(x / width))); }
};
struct BySite {
  int operator()(const Site &s) const { return s.id; }
  int operator()(const double &x) const { return x < 0. ? -1 : 1; }
  int operator()(const VDS &v) const {
    return v.match([this](const auto &x) { return (*this)(x); });
  }
  int operator()(const LC<double> &c) const { return static_cast<int>(c.values.size()); }
};
template <typename G, typename X> Labels labels(const G &g, const std::vector<X> &xs) {
  Labels o;
  for (const auto &x : xs) {
    std::ostringstream s;
    s << g(x);
    o.push_back(s.str());
  }
  return o;
}
template <typename X> Labels labels(const al::LeaveOneOutGrouper &, const std::vector<X> &xs) {
  Labels o;
  for (std::size_t i = 0; i < xs.size(); ++i)
    o.push_back(std::to_string(i));
  return o;
}
// ---------------------------------------------------------------- strategies
template <typename U> struct GivenPoints {
  std::vector<U> u;
  template <typename C, typename X> std::vector<U> operator()(const C &, const std::vector<X> &) const { return u; }
};
template <typename U, typename C, typename X> J jstrategy(const GivenPoints<U> &s, const C &, const std::vector<X> &) { return obj({{"kind", j("given")}, {"u", jfs(s.u)}}); }
template <typename C, typename X> J jstrategy(const al::UniformlySpacedInducingPoints &s, const C &, const std::vector<X> &) { return obj({{"kind", j("uniform")}, {"n", j(s.num_points)}}); }
template <typename C, typename X> J jstrategy(const al::StateSpaceInducingPointStrategy &, const C &c, const std::vector<X> &xs) {
  return obj({{"kind", j("given")}, {"u", jfs(c.state_space_representation(xs))}});
}
template <typename G, typename D> Fields jgrouped(const char *op, const G &g, const D &d) {
  Fields f = jdata(op, d);
  f.push_back({"group", j(labels(g, d.features))});
  return f;
}
template <typename X> std::vector<X> inducing(const al::RegressionDataset<X> &d, int n, Rng &rng) {
  auto u = distinct<X>(n, rng);
  if (rng.coin() && !u.empty() && std::find(u.begin(), u.end(), d.features[0]) == u.end())
    u[0] = d.features[0];
  return u;
}

template <typename Model, typename C, typename M> void log_model(Model &model, const E<C> &c, const E<M> &m, double inner, double outer, Rng &rng) {
  step({{"op", j("expr")}, {"expr", c.tree}});
  step({{"op", j("mean_expr")}, {"expr", m.tree}});
  if (rng.coin()) {
    model.set_param_value("inducing_nugget", inner);
    model.set_param_value("measurement_nugget", outer);
  } else {
    model.set_param("inducing_nugget", {inner, al::LogScaleUniformPrior(al::PARAMETER_EPSILON, al::PARAMETER_MAX)});
    model.set_param("measurement_nugget", {outer, al::LogScaleUniformPrior(al::PARAMETER_EPSILON, al::PARAMETER_MAX)});
  }
  const auto params = model.get_params();
  step({{"op", j("nuggets")}, {"inner", j(params.at("inducing_nugget").value)}, {"outer", j(params.at("measurement_nugget").value)}});
  model.set_thread_pool(some_pool(rng));
}
template <typename Model, typename C, typename G, typename S, typename D> auto log_sparse_fit(const Model &model, const E<C> &c, const G &g, const S &s, const D &d) {
  const auto fit = model.fit(d);
  Fields f = jgrouped("fit", g, d);
  f.push_back({"u", jfs(fit.get_fit().train_features)});
  f.push_back({"strategy", jstrategy(s, c.cov, d.features)});
  step(f);
  return fit;
}
template <typename Model, typename C, typename G, typename S, typename D> void log_sparse_likelihood(const Model &model, const E<C> &c, const G &g, const S &s, const D &d) {
  Fields f = jgrouped("log_likelihood", g, d);
  f.push_back({"u", jfs(s(c.cov, d.features))});
  f.push_back({"strategy", jstrategy(s, c.cov, d.features)});
  f.push_back({"prior", j(model.prior_log_likelihood())});
  f.push_back({"out", j(model.log_likelihood(d))});
  step(f);
}
template <typename F, typename X> void log_sparse_predict(const char *kind, const F &fit, const std::vector<X> &train, Rng &rng) {
  log_predict(kind, fit, places(train, rng.range(1, 3), rng), rng);
  if (rng.chance(1, 3))
    log_noisy(fit, places(train, rng.range(1, 2), rng), rng);
}
template <typename F, typename D> auto log_update(const F &fit, const D &d, Rng &rng) {
  switch (rng.range(0, 2)) {
  case 0: return fit.update(d);
  case 1: return fit.update(d.features, d.targets);
  default: return al::update(fit, d);
  }
}
// fits, updates in batches, re-bases, refits
template <typename X, typename C, typename M, typename G, typename S, typename QR>
void sparse_history(const E<C> &c, const E<M> &m, const G &g, const S &s, const QR &qr, const al::RegressionDataset<X> &data, double inner, double outer, Rng &rng) {
  auto model = al::sparse_gp_from_covariance_and_mean(c.cov, m.cov, g, s, "sparse", qr);
  log_model(model, c, m, inner, outer, rng);
  log_sparse_likelihood(model, c, g, s, data);
  auto fit = log_sparse_fit(model, c, g, s, data);
  log_sparse_predict("sparse fit", fit, data.features, rng);
  const auto u = fit.get_fit().train_features;
  using U = typename std::decay_t<decltype(u)>::value_type;
  if constexpr (std::is_same<U, X>::value)
    log_predict("at inducing points", fit, u, rng);
  end_behaviour();
}
// the exact process from inducing points at all of the data
template <typename X, typename C, typename M, typename G, typename QR>
void exact(const E<C> &c, const E<M> &m, const G &g, const QR &qr, const al::RegressionDataset<X> &data, Rng &rng) {
  const GivenPoints<X> s{data.features};
  auto model = al::sparse_gp_from_covariance_and_mean(c.cov, m.cov, g, s, "sparse", qr);
  log_model(model, c, m, 1e-10, 1e-10, rng);
  const auto fit = log_sparse_fit(model, c, g, s, data);
  const auto at = places(data.features, 3, rng);
  Fields f = jdata("exact", data);
  f.push_back({"at", jfs(at)});
  f.push_back({"joint", jjoint(fit.predict(at).joint())});
  step(f);
  // fits of the exact process can be used with the sparse model
  auto dense = al::gp_from_covariance_and_mean(c.cov, m.cov);
  const auto dense_fit = dense.fit(data);
  const al::FitModel<decltype(model), std::decay_t<decltype(dense_fit.get_fit())>> mixed(model, std::decay_t<decltype(dense_fit.get_fit())>(dense_fit.get_fit()));
  const auto a = mixed.predict(at).joint(), b = dense_fit.predict(at).joint();
  step({{"op", j("same")}, {"what", j("an exact fit predicts differently with a sparse model")}, {"equal", j(a.mean == b.mean && a.covariance == b.covariance)}});
  end_behaviour();
}
// measurements arriving in batches of possibly other types of feature
template <typename F, typename G, typename X> auto log_batch(const F &fit, const G &g, const al::RegressionDataset<X> &d, Rng &rng) {
  auto next = log_update(fit, d, rng);
  step(jgrouped("update", g, d));
  log_sparse_predict("updated", next, d.features, rng);
  return next;
}
template <typename F, typename Z> auto log_rebase(const F &fit, const std::vector<Z> &z, Rng &rng) {
  auto next = al::rebase_inducing_points(fit, z);
  step({{"op", j("rebase")}, {"u", jfs(z)}});
  step({{"op", j("same")}, {"what", j("inducing points of a re-based fit")}, {"equal", j(next.get_fit().train_features == z)}});
  log_predict("re-based, at inducing points", next, z, rng);
  return next;
}
void sgp_a(Rng &rng, const Args &args);
void sgp_b(Rng &rng, const Args &args);
void sgp_c(const std::string &path, Rng &rng, const Args &args);
