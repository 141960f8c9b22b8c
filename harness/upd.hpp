#pragma once
#include "gp_check.hpp"
template <typename F, typename D> auto updated(const F &fit, const D &batch, Rng &rng) {
  switch (rng.range(0, 2)) {
  case 0: return fit.update(batch);
  case 1: return fit.update(batch.features, batch.targets);
  default: return al::update(fit, batch);
  }
}
// batches one after another; the type of the fit grows with every batch
template <int Left, typename F, typename D, typename X>
void batches(const F &fit, const std::vector<D> &all, std::size_t k, const std::vector<X> &probe, Rng &rng) {
  if (k == all.size())
    return;
  const auto next = updated(fit, all[k], rng);
  step(jdata("update", all[k]));
  log_predict("updated", next, probe, rng);
  if (k + 1 == all.size())
    log_noisy(next, probe, rng);
  if constexpr (Left > 1)
    batches<Left - 1>(next, all, k + 1, probe, rng);
}
// consecutive parts of a dataset with the given sizes
template <typename D> std::vector<D> parts(const D &data, const std::vector<int> &sizes) {
  std::vector<D> out;
  std::size_t at = 0;
  for (int s : sizes) {
    std::vector<std::size_t> idx(static_cast<std::size_t>(s));
    std::iota(idx.begin(), idx.end(), at);
    at += idx.size();
    out.push_back(al::subset(data, idx));
  }
  return out;
}
template <int Depth, typename M, typename D, typename X>
void split(const M &model, const D &data, const std::vector<int> &sizes, const std::vector<X> &probe, Rng &rng) {
  const auto all = parts(data, sizes);
  const auto fit = model.fit(all[0]);
  log_fit(fit, all[0]);
  batches<Depth>(fit, all, 1, probe, rng);
}
template <int Depth, typename X, typename C, typename M> void random_splits(const E<C> &c, const E<M> &m, Rng &rng, const Args &args, bool latent_ok = true) {
  label("updates " + c.name + " " + m.name);
  for (int i = 0; i < args.scale(8, 60); ++i) {
    auto model = begin(c, m, rng);
    const int n = i % 8 == 5 ? rng.range(24, 36) : rng.range(2, 8);
    std::vector<int> sizes(static_cast<std::size_t>(rng.range(2, std::min(n, Depth + 1))), 1);
    for (int k = static_cast<int>(sizes.size()); k < n; ++k)
      ++sizes[static_cast<std::size_t>(rng.range(0, static_cast<int>(sizes.size()) - 1))];
    const auto data = some_data<X>(n, rng);
    split<Depth>(model, data, sizes, places(data.features, 3, rng), rng);
    end_behaviour();
    if (latent_ok) { // updates of a process built from a prediction
      auto base_model = begin(c, m, rng);
      const auto u = distinct<X>(rng.range(1, 3), rng);
      const auto k = static_cast<Eigen::Index>(u.size());
      const al::JointDistribution p(unit() * dyadics(static_cast<int>(k), rng), some_spd(k, rng));
      const auto fit = base_model.fit_from_prediction(u, p);
      step({{"op", j("from_prediction")}, {"u", jfs(u)}, {"mean", jv(p.mean)}, {"cov", jm(p.covariance)}, {"train", jfs(fit.get_fit().train_features)}});
      auto more = some_data<X>(rng.range(2, 4), rng);
      if (rng.coin())
        more.features[0] = u[0];
      const int first = rng.range(1, static_cast<int>(more.size()) - 1);
      batches<2>(fit, parts(more, {first, static_cast<int>(more.size()) - first}), 0, places(u, 3, rng), rng);
      end_behaviour();
    }
  }
}
// a fit to one type of feature updated with another type
template <typename X, typename Y, typename C, typename M> void across(const E<C> &c, const E<M> &m, Rng &rng, const Args &args) {
  label("updates across types " + c.name);
  for (int i = 0; i < args.scale(6, 40); ++i) {
    auto model = begin(c, m, rng);
    const auto first = some_data<X>(i == 3 ? rng.range(12, 20) : rng.range(1, 3), rng);
    const auto second = some_data<Y>(i == 3 ? rng.range(12, 20) : rng.range(1, 3), rng);
    const auto third = some_data<X>(rng.range(1, 2), rng);
    const auto fit = model.fit(first);
    log_fit(fit, first);
    const auto once = updated(fit, second, rng);
    step(jdata("update", second));
    log_predict("updated with another type", once, first.features, rng);
    log_predict("updated with another type", once, second.features, rng);
    log_noisy(once, features<X>(2, rng), rng);
    const auto twice = updated(once, third, rng);
    step(jdata("update", third));
    log_predict("updated with another type", twice, second.features, rng);
    end_behaviour();
  }
}
void upd_a(Rng &rng, const Args &args);
void upd_b(Rng &rng, const Args &args);
