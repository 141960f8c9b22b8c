#include "sgp_check.hpp"
// one fit each, over kinds of grouping, inducing points and decomposition
template <typename QR> static void fits(const QR &qr, Rng &rng, const Args &args) {
  const auto c = m32(2., 1.5) + meas(noise<double>(0.75)) + cst(2.);
  const auto m = linear_mean(0.5, 2.) + bias_mean(1.25);
  const auto c2 = se(2.5, 2.) + meas(noise<double>(0.5));
  for (int i = 0; i < args.scale(10, 80); ++i) {
    const bool large = i == 4; // far more data
    const auto data = some_data<double>(large ? rng.range(60, 70) : rng.range(1, 7), rng);
    ByTable table;
    for (double x : data.features)
      table.table[x] = rng.range(0, large ? 11 : 3);
    const double inner = rng.pick(std::vector<double>{1e-8, 0.125, 1.}), outer = rng.pick(std::vector<double>{1e-8, 0.5, 2.});
    label("fit table");
    sparse_history(c, m, table, GivenPoints<double>{inducing(data, rng.range(1, 4), rng)}, qr, data, inner, outer, rng);
    label("fit leave-one-out");
    sparse_history(c, m, al::LeaveOneOutGrouper(), GivenPoints<double>{inducing(data, rng.range(1, 4), rng)}, qr, data, inner, outer, rng);
    label("fit uniform");
    sparse_history(c, zero_mean(), ByInterval{2. + rng.range(0, 3)}, al::UniformlySpacedInducingPoints(static_cast<std::size_t>(rng.range(1, 5))), qr, data, 0.25, outer, rng);
    label("fit state space");
    sparse_history(c2, m, ByInterval{4.}, al::StateSpaceInducingPointStrategy(), qr, data, 0.5, outer, rng);
    label("fit repeated inducing points");
    auto u = inducing(data, 3, rng);
    u.push_back(u[0]);
    sparse_history(c, m, table, GivenPoints<double>{u}, qr, data, 0.5, outer, rng);
    if (large)
      continue;
    label("exact");
    auto apart = data;
    apart.features = distinct<double>(static_cast<int>(data.size()), rng);
    ByTable all;
    for (double x : apart.features)
      all.table[x] = rng.range(0, 2);
    exact(c, m, all, qr, apart, rng);
  }
}
void sgp_a(Rng &rng, const Args &args) {
  fits(al::DenseQRImplementation(), rng, args);
  fits(al::SPQRImplementation(), rng, args);
}
