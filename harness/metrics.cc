// What the metrics say about predictions, in the vocabulary of
// spec/PredictionMetrics.tla.
#define VERIF_EIGEN
#include "common.hpp"
#include "input.hpp"
#include "stops.hpp"
#include <albatross/Dataset>
#include <albatross/Evaluation>
#include <albatross/GP>
#include <albatross/Indexing>
namespace al = albatross;
using namespace verif;
using albatross::operator*;
using Vec = Eigen::VectorXd;
using Mat = Eigen::MatrixXd;
static const double inf = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN();

struct Case {
  Vec mean, y, noise;
  Mat cov;
  al::JointDistribution joint() const { return {mean, cov}; }
  al::MarginalDistribution marginal() const { return {mean, Vec(cov.diagonal())}; }
  al::MarginalDistribution truth() const { return {y, noise}; }
  Fields fields(const char *op) const {
    return {{"op", j(op)}, {"mean", jv(mean)}, {"cov", jm(cov)}, {"y", jv(y)}, {"noise", jv(noise)}};
  }
};
static Vec dyadics(int n, Rng &r, int lo, int hi, double s) {
  Vec v(n);
  for (int i = 0; i < n; ++i)
    v[i] = r.dyadic(lo, hi, s);
  return v;
}
static Mat some_cov(int n, Rng &r) {
  Mat l = Mat::Zero(n, n);
  for (int i = 0; i < n; ++i) {
    for (int k = 0; k < i; ++k)
      l(i, k) = r.dyadic(-8, 8, 0.125);
    l(i, i) = (n > 9 ? n / 2. : 0.) + r.dyadic(4, 16, 0.125); // well conditioned
  }
  Mat c = l * l.transpose();
  if (r.chance(1, 3)) { // components in very different units, in any order
    Vec s(n);
    for (int i = 0; i < n; ++i)
      s[i] = std::ldexp(1., r.range(-4, 4));
    c = s.asDiagonal() * c * s.asDiagonal();
  }
  if (r.chance(1, 6))
    c = Mat(c.diagonal().asDiagonal());
  return c;
}
static Case some_case(int n, Rng &r) {
  Case c;
  c.cov = some_cov(n, r);
  c.mean = dyadics(n, r, -64, 64, 0.125);
  c.y = c.mean;
  for (int i = 0; i < n; ++i)
    c.y[i] += r.dyadic(-24, 24, 0.125) * std::sqrt(c.cov(i, i));
  c.noise = r.chance(1, 3) ? Vec(Vec::Zero(n)) : dyadics(n, r, 0, 12, 0.25);
  return c;
}

// the same, measured in some other unit
static Case in_units(const Case &c, double u) {
  return {Vec(c.mean * u), Vec(c.y * u), Vec(c.noise * u * u), Mat(c.cov * u * u)};
}

static void errors(const Case &c) {
  auto f = c.fields("errors");
  f.push_back({"rmse", j(al::root_mean_square_error(c.mean, c.y))});
  f.push_back({"rmse_marginal", j(al::root_mean_square_error(c.mean, c.truth()))});
  f.push_back({"rmse_object", j(al::RootMeanSquareError()(c.mean, c.truth()))});
  f.push_back({"spread", j(al::standard_deviation(c.mean, c.y))});
  f.push_back({"spread_marginal", j(al::standard_deviation(c.mean, c.truth()))});
  f.push_back({"spread_object", j(al::StandardDeviation()(c.mean, c.truth()))});
  f.push_back({"spread_of_truth", j(al::standard_deviation(c.y))});
  step(f);
}
static void likelihood(const Case &c, Rng &r) {
  auto f = c.fields("likelihood");
  const Vec d = c.y - c.mean;
  const bool objects = r.coin();
  f.push_back({"joint", j(objects ? al::NegativeLogLikelihood<>()(c.joint(), c.truth()) : al::negative_log_likelihood(c.joint(), c.truth()))});
  f.push_back({"marginal", j(objects ? al::NegativeLogLikelihood<al::MarginalDistribution>()(c.marginal(), c.truth()) : al::negative_log_likelihood(c.marginal(), c.truth()))});
  f.push_back({"plain", j(al::negative_log_likelihood(d, c.cov))});
  const Eigen::LDLT<Mat> ldlt(c.cov);
  f.push_back({"decomposed", j(al::negative_log_likelihood(d, ldlt))});
  Eigen::DiagonalMatrix<double, Eigen::Dynamic> diagonal(c.cov.rows());
  diagonal.diagonal() = c.cov.diagonal();
  f.push_back({"diagonal", j(al::negative_log_likelihood(d, diagonal))});
  std::vector<J> scalars;
  for (Eigen::Index i = 0; i < d.size(); ++i)
    scalars.push_back(j(al::negative_log_likelihood(d[i], c.cov(i, i))));
  f.push_back({"scalars", j(scalars)});
  f.push_back({"entropy", j(al::differential_entropy(c.cov))});
  f.push_back({"entropy_of_decomposition", j(al::differential_entropy(ldlt))});
  f.push_back({"log_det", j(al::log_determinant_of_symmetric(ldlt))});
  f.push_back({"cdf", j(objects ? al::ChiSquaredCdf()(c.joint(), c.truth()) : al::chi_squared_cdf(c.joint(), c.truth()))});
  step(f);
}
static void object(Rng &r) {
  const auto cov = al::SquaredExponential<al::EuclideanDistance>(2., 1.5) + al::IndependentNoise<double>(0.5);
  const auto model = al::gp_from_covariance(cov);
  const int n = r.range(1, 5), m = r.range(1, 4);
  std::vector<double> xs, at;
  for (int i = 0; i < n; ++i)
    xs.push_back(i + r.dyadic(-4, 4, 0.0625));
  for (int i = 0; i < m; ++i)
    at.push_back(i + r.dyadic(-4, 4, 0.0625) + 0.28125);
  const auto fit = model.fit(al::RegressionDataset<double>(xs, al::MarginalDistribution(dyadics(n, r, -16, 16, 0.125), dyadics(n, r, 1, 8, 0.25))));
  const auto pred = fit.predict(at);
  const al::JointDistribution joint = pred.joint();
  Case c{joint.mean, dyadics(m, r, -16, 16, 0.125), dyadics(m, r, 0, 8, 0.25), joint.covariance};
  auto f = c.fields("object");
  f.push_back({"rmse", j(al::RootMeanSquareError()(pred, c.truth()))});
  f.push_back({"spread", j(al::StandardDeviation()(pred, c.truth()))});
  f.push_back({"joint", j(al::NegativeLogLikelihood<>()(pred, c.truth()))});
  f.push_back({"marginal", j(al::NegativeLogLikelihood<al::MarginalDistribution>()(pred, c.truth()))});
  f.push_back({"cdf", j(al::ChiSquaredCdf()(pred, c.truth()))});
  step(f);
}
static J jdist(const al::JointDistribution &d) { return obj({{"mean", jv(d.mean)}, {"cov", jm(d.covariance)}}); }
static void wasserstein(const al::JointDistribution &a, const al::JointDistribution &b) {
  step({{"op", j("wasserstein")}, {"a", jdist(a)}, {"b", jdist(b)}, {"out", j(al::distance::wasserstein_2(a, b))}});
}
static void wassersteins(const Case &c, Rng &r) {
  const int n = static_cast<int>(c.mean.size());
  const double size = std::sqrt(c.cov.diagonal().maxCoeff());
  const double unit = (size > 1e3 || size < 1e-3) ? std::exp2(std::round(std::log2(size))) : 1.;
  auto other = in_units(some_case(n, r), unit).joint();
  if (r.chance(1, 6))
    other.covariance = Mat(c.cov + Mat::Identity(n, n) * 1e-3 * unit * unit);
  if (r.chance(1, 6))
    other = c.joint();
  if (r.chance(1, 4)) { // without volume
    const Vec v = dyadics(n, r, -8, 8, 0.125);
    other.covariance = v * v.transpose() * unit * unit;
  }
  wasserstein(c.joint(), other);
  if (r.chance(1, 4))
    wasserstein(other, c.joint());
}
static void crps(double mu, double sigma, double y) {
  step({{"op", j("crps")}, {"mu", j(mu)}, {"sigma", j(sigma)}, {"y", j(y)}, {"out", j(al::score::crps_normal(mu, sigma, y))}});
}
static void variogram(const Case &c, Rng &r) {
  const int n = static_cast<int>(c.mean.size());
  Mat w = Mat::Ones(n, n);
  const bool weighted = r.coin();
  if (weighted)
    for (int i = 0; i < n; ++i)
      for (int k = 0; k < n; ++k)
        w(i, k) = k > i || r.chance(1, 3) ? r.dyadic(0, 12, 0.25) : w(k, i);
  const int order = r.range(1, 2);
  const auto o = order == 2 ? al::score::VariogramScoreOrder::cVariogram : al::score::VariogramScoreOrder::cMadogram;
  const Mat *wp = weighted ? &w : nullptr;
  double out;
  auto d = c;
  const bool plain = r.coin();
  if (plain) // truth without noise
    d.noise.setZero();
  const bool defaulted = order == 1 && r.coin();
  if (plain)
    out = defaulted ? al::score::variogram_score(d.joint(), d.y, wp) : al::score::variogram_score(d.joint(), d.y, wp, o);
  else
    out = defaulted ? al::score::variogram_score(d.joint(), d.truth(), wp) : al::score::variogram_score(d.joint(), d.truth(), wp, o);
  auto f = d.fields("variogram");
  f.push_back({"weights", jm(w)});
  f.push_back({"order", j(order)});
  f.push_back({"out", j(out)});
  step(f);
}
static void energy(const Case &c, Rng &r) {
  const int n = static_cast<int>(c.mean.size());
  Vec w = Vec::Ones(n);
  const bool weighted = r.coin();
  if (weighted)
    for (int i = 0; i < n; ++i)
      w[i] = r.chance(1, 4) ? 0. : r.dyadic(1, 16, 0.25);
  const Vec *wp = weighted ? &w : nullptr;
  auto d = c;
  const bool plain = r.coin();
  if (plain)
    d.noise.setZero();
  const unsigned seed = static_cast<unsigned>(r.range(0, 1 << 20));
  Eigen::Index samples = r.pick(std::vector<int>{2, 3, 100, 20000, 20001, 50000});
  auto run = [&] {
    return plain ? al::score::energy_score(d.joint(), d.y, wp, seed, samples) : al::score::energy_score(d.joint(), d.truth(), wp, seed, samples);
  };
  auto deflt = [&] {
    return plain ? al::score::energy_score(d.joint(), d.y, wp) : al::score::energy_score(d.joint(), d.truth(), wp);
  };
  const bool defaulted = r.chance(1, 8);
  if (defaulted)
    samples = 1000; // at least
  const double out = defaulted ? deflt() : run(), again = defaulted ? deflt() : run();
  auto f = d.fields("energy");
  f.push_back({"weights", jv(w)});
  f.push_back({"samples", j(static_cast<long>(samples))});
  f.push_back({"out", j(out)});
  f.push_back({"again", j(again)});
  step(f);
}
template <typename F> void refused(bool invalid, F f) { step({{"op", j("refused")}, {"invalid", j(invalid)}, {"stopped", j(stops(f))}}); }
static void refusals(Rng &r) {
  const int n = r.range(2, 4);
  const auto c = some_case(n, r);
  const int k = r.pick(std::vector<int>{n - 1, n, n + 1});
  const Vec y = Vec::Zero(k);
  refused(k != n, [&] { al::score::energy_score(c.joint(), y); });
  refused(k != n, [&] { al::score::variogram_score(c.joint(), y); });
  const Vec wv = Vec::Ones(k);
  refused(k != n, [&] { al::score::energy_score(c.joint(), c.y, &wv); });
  const int l = r.coin() ? n : k;
  const Mat wm = Mat::Ones(k, l);
  refused(k != n || l != n, [&] { al::score::variogram_score(c.joint(), c.y, &wm); });
  const int s = r.range(0, 3);
  refused(s <= 1, [&] { al::score::energy_score(c.joint(), c.y, nullptr, 3U, s); });
}
static Mat numbers(const Json &m) {
  Mat o(m.size(), m[0].size());
  for (std::size_t i = 0; i < m.size(); ++i)
    for (std::size_t k = 0; k < m[i].size(); ++k)
      o(i, k) = std::stod(m[i][k].get<std::string>());
  return o;
}
static Vec number_list(const Json &v) {
  Vec o(v.size());
  for (std::size_t i = 0; i < v.size(); ++i)
    o[i] = std::stod(v[i].get<std::string>());
  return o;
}
// far away from zero, compared to the spread
static Case moved(const Case &c, Rng &r) {
  Case far = c;
  const double by = std::ldexp(1., r.pick(std::vector<int>{20, 30, 36}));
  far.y.array() += by;
  if (r.coin())
    far.mean.array() -= by;
  return far;
}
static void all_of(const Case &c, Rng &r) {
  errors(c);
  errors(moved(c, r));
  likelihood(c, r);
  if (c.mean.size() < 10)
    wassersteins(c, r);
  variogram(c, r);
}
int main(int argc, char **argv) {
  const auto args = parse_args(argc, argv);
  Rng r(args.seed);
  for (const auto &x : read_inputs(args.in)) {
    const Case c{number_list(x["mean"]), number_list(x["y"]), number_list(x["noise"]), numbers(x["cov"])};
    label("enumerated");
    all_of(c, r);
    if (r.chance(1, 4))
      energy(c, r);
    end_behaviour();
  }
  for (int i = 0; i < args.scale(300, 3000); ++i) {
    label("random");
    const auto unitless = some_case(i % 40 == 7 ? r.range(25, 44) : r.chance(1, 12) ? r.range(6, 9) : r.range(1, 5), r);
    const auto c = r.chance(2, 3) ? unitless : in_units(unitless, std::ldexp(1., r.pick(std::vector<int>{-60, -20, 12, 40})));
    all_of(c, r);
    const auto &s = c.cov;
    const Eigen::Index k = r.range(0, static_cast<int>(s.rows()) - 1);
    crps(c.mean[k], std::sqrt(s(k, k)), c.y[k]);
    end_behaviour();
  }
  for (int i = 0; i < args.scale(120, 1200); ++i) {
    label("energy");
    energy(some_case(r.size(1, 4, 12, 40), r), r);
    end_behaviour();
  }
  for (int i = 0; i < args.scale(80, 600); ++i) {
    label("object");
    object(r);
    end_behaviour();
  }
  label("edges");
  for (double s : {0., -1., 1e-300, 1e-8, 1., 1e8, inf, nan_})
    for (double y : {0., 1., -3., 1e9, -inf, nan_})
      for (double mu : {0., 1., -2.5, inf, nan_})
        crps(mu, s, y);
  end_behaviour();
  label("empty");
  {
    Case none{Vec(0), Vec(0), Vec(0), Mat(0, 0)};
    step({{"op", j("variogram")}, {"mean", jv(none.mean)}, {"cov", jm(none.cov)}, {"y", jv(none.y)}, {"noise", jv(none.noise)}, {"weights", jm(none.cov)}, {"order", j(1)}, {"out", j(al::score::variogram_score(none.joint(), none.y))}});
  }
  end_behaviour();
  for (int i = 0; i < args.scale(12, 60); ++i) {
    label("refusals");
    refusals(r);
    end_behaviour();
  }
  return finish();
}
