#define VERIF_EIGEN
#include "common.hpp"
#include "input.hpp"
#include "stops.hpp"
#include <albatross/Core>
#include <albatross/Dataset>
#include <albatross/GP>
#include <albatross/Indexing>
#include <albatross/LeastSquares>
#include <albatross/NullModel>
#include <albatross/src/models/conditional_gaussian.hpp>
namespace al = albatross;
using namespace verif;
using V = Eigen::VectorXd;
using Mx = Eigen::MatrixXd;
static V dy(int n, Rng &rng, int lo = -64, int hi = 64, double s = 0.125) {
  V v(n);
  for (int i = 0; i < n; ++i)
    v[i] = rng.dyadic(lo, hi, s);
  return v;
}
template <typename D> J jjoint(const D &d) { return obj({{"mean", jv(d.mean)}, {"cov", jm(d.covariance)}}); }
static J jmarg(const al::MarginalDistribution &d) { return obj({{"mean", jv(d.mean)}, {"var", jv(d.covariance.diagonal())}}); }

// ------------------------------------------------------------- least squares
class Plain : public al::LeastSquares<Plain> {};
class Ridge : public al::LeastSquares<Ridge> { // brings its own solver
public:
  double lambda = 0.5;
  V least_squares_solver(const Mx &A, const V &b) const {
    return (A.transpose() * A + lambda * Mx::Identity(A.cols(), A.cols())).ldlt().solve(A.transpose() * b);
  }
};
static J jx(const V &x) { return jv(x); }
static J jx(const double &x) { return j(x); }
template <typename X> J jxs(const std::vector<X> &xs) {
  std::vector<J> v;
  for (const auto &x : xs)
    v.push_back(jx(x));
  return arr(v);
}
template <typename M, typename X> void least_squares(const char *name, const M &m, const std::vector<X> &xs, const V &y, const V &noise, const std::vector<X> &asked, bool full, const J &line, double lambda = 0., bool independent = false) {
  label(name);
  const al::RegressionDataset<X> data(xs, al::MarginalDistribution(y, noise));
  const bool same = (noise.array() == noise[0]).all();
  Fields f = {{"op", j("fit_coefs")}, {"model", j(name)}, {"xs", jxs(xs)}, {"y", jv(y)}, {"noise", jv(noise)}, {"full", j(full)}, {"independent", j(full || independent)}, {"line", line}, {"lambda", j(lambda)}};
  if (!same && stops([&] { m.fit(data); })) {
    f.push_back({"stopped", j(true)});
    f.push_back({"coefs", arr({})});
    single(f);
    return;
  }
  const auto fit = m.fit(data);
  f.push_back({"stopped", j(false)});
  f.push_back({"coefs", jv(fit.get_fit().coefs)});
  step(f);
  step({{"op", j("predict_coefs")}, {"xs", jxs(asked)}, {"mean", jv(fit.predict(asked).mean())}});
  end_behaviour();
}
static V some_noise(int n, Rng &rng, bool same) {
  V v = V::Constant(n, rng.pick(std::vector<double>{0., 0.5, 4.}));
  if (!same)
    v[rng.range(0, n - 1)] += 0.25;
  v *= rng.pick(std::vector<double>{1., 1., std::ldexp(1., -60), std::ldexp(1., -30), std::ldexp(1., 40)}); // in any units
  return v;
}
static void lines(Rng &rng) {
  // general designs: tall, square, wide, with repeated columns
  const int c = rng.size(1, 4, 12, 20), n = rng.chance(1, 4) ? rng.range(1, c) : c + rng.size(0, 5, 60, 20);
  std::vector<V> xs;
  Mx A(n, c);
  for (int i = 0; i < n; ++i) {
    V r = dy(c, rng, -8, 8, 0.5);
    r[i % c] += 8.;
    if (c > 1 && n < c)
      r[c - 1] = r[0];
    xs.push_back(r);
    A.row(i) = r;
  }
  bool full = n >= c;
  if (full) {
    const Eigen::JacobiSVD<Mx> svd(A);
    full = svd.singularValues()[c - 1] > 0.02 * svd.singularValues()[0];
  }
  std::vector<V> asked;
  for (int i = rng.size(0, 3, 60, 20); i > 0; --i)
    asked.push_back(dy(c, rng));
  const V y = dy(n, rng), noise = some_noise(n, rng, n == 1 || rng.chance(7, 8));
  if (rng.chance(2, 3))
    least_squares("least_squares", Plain(), xs, y, noise, asked, full, arr({}));
  else {
    Ridge r;
    r.lambda = 0.5 * rng.range(1, 9);
    least_squares("ridge", r, xs, y, noise, asked, full, arr({}), r.lambda);
  }
  // lines, some through collinear points
  const int k = rng.size(1, 6, 70, 20);
  std::vector<double> ts, at;
  const bool far = rng.chance(1, 3); // seconds since some other day
  const double start = far ? std::ldexp(rng.coin() ? 1. : -1., rng.range(8, 19)) : 0.;
  for (int i = 0; i < k; ++i)
    ts.push_back(start + 3. * i + rng.dyadic(-8, 8));
  for (int i = rng.size(0, 3, 60, 20); i > 0; --i)
    at.push_back(rng.dyadic());
  rng.shuffle(ts);
  const double a = rng.dyadic(), b = rng.dyadic();
  const bool collinear = rng.coin();
  V ys = dy(k, rng);
  if (collinear)
    for (int i = 0; i < k; ++i)
      ys[i] = a + b * ts[static_cast<std::size_t>(i)];
  least_squares("linear", al::LinearRegression(), ts, ys, some_noise(k, rng, k == 1 || rng.chance(7, 8)), at, k > 1 && !far, collinear && k > 1 && !far ? arr({j(a), j(b)}) : arr({}), 0., k > 1);
}
// ------------------------------------------------------------------ null model
template <typename X> void null_model(const std::vector<X> &xs, const std::vector<X> &asked, Rng &rng) {
  label("null");
  const al::RegressionDataset<X> data(xs, al::MarginalDistribution(dy(static_cast<int>(xs.size()), rng)));
  const auto fit = rng.coin() ? al::NullModel().fit(data) : al::NullModel().fit_from_prediction(xs, al::JointDistribution(data.targets.mean, Mx::Identity(data.targets.mean.size(), data.targets.mean.size())));
  const auto p = fit.predict(asked);
  single({{"op", j("null")}, {"n", j(asked.size())}, {"mean", jv(p.mean())}, {"marginal", jmarg(p.marginal())}, {"joint", jjoint(p.joint())}});
}
// --------------------------------------------------------- conditional Gaussian
using Idx = std::vector<std::size_t>;
static Idx some_idx(int n, int k, Rng &rng) {
  Idx v;
  for (int i = 0; i < k; ++i)
    v.push_back(static_cast<std::size_t>(rng.range(0, n - 1)));
  return v;
}
static void conditional(const Idx &train, int n, Rng &rng) {
  label("conditional " + j(train).s);
  Mx B(n, n);
  for (int i = 0; i < B.size(); ++i)
    B.data()[i] = rng.dyadic(-8, 8);
  const Mx C = B * B.transpose() + 1.5 * Mx::Identity(n, n);
  const al::JointDistribution prior(dy(n, rng), C);
  bool repeated = false;
  for (std::size_t a = 0; a < train.size(); ++a)
    for (std::size_t b = 0; b < a; ++b)
      repeated = repeated || train[a] == train[b];
  V noise = dy(n, rng, 1, 12, 0.25);
  if (!repeated && rng.coin())
    for (int i = 0; i < n; ++i)
      if (rng.coin())
        noise[i] = 0.;
  const al::MarginalDistribution truth(dy(n, rng), noise);
  const al::ConditionalGaussian model(prior, truth);
  step({{"op", j("gaussian")}, {"mean", jv(prior.mean)}, {"cov", jm(C)}, {"y", jv(truth.mean)}, {"noise", jv(noise)}});
  const Idx some = some_idx(n, n > 12 ? rng.range(5, n) : rng.range(0, 4), rng);
  const auto p = model.get_prior(some);
  const auto t = model.get_truth(some);
  step({{"op", j("prior")}, {"idx", j(some)}, {"mean", jv(p.mean)}, {"cov", jm(p.covariance)}, {"y", jv(t.mean)}, {"noise", jv(t.covariance.diagonal())}});
  step({{"op", j("condition")}, {"idx", j(train)}});
  const auto fit = model.fit(train);
  for (int k = 0; k < 2; ++k) {
    const Idx ask = some_idx(n, n > 12 ? rng.range(5, n) : rng.range(0, 4), rng);
    const auto q = fit.predict(ask);
    step({{"op", j("conditional")}, {"idx", j(ask)}, {"mean", jv(q.mean())}, {"marginal", jmarg(q.marginal())}, {"joint", jjoint(q.joint())}});
  }
  end_behaviour();
}
// --------------------------------------------------------- kinds of prediction
// What a model's own implementations answer: unrelated, so that it shows which is used.
struct Own {
  static V mean(const std::vector<double> &xs) {
    V v(xs.size());
    for (std::size_t i = 0; i < xs.size(); ++i)
      v[static_cast<long>(i)] = 1. + 2. * xs[i];
    return v;
  }
  static al::MarginalDistribution marginal(const std::vector<double> &xs) { return {mean(xs).array() + 10., mean(xs).array().square() + 1.}; }
  static al::JointDistribution joint(const std::vector<double> &xs) {
    const V m = mean(xs);
    return {V(m.array() - 5.), Mx(m * m.transpose() + 2. * Mx::Identity(m.size(), m.size()))};
  }
};

class HasMean; class HasMarginal; class HasJoint; class HasMeanMarginal; class HasMeanJoint; class HasMarginalJoint; class HasAll;
namespace albatross {
template <> struct Fit<HasMean> {};
template <> struct Fit<HasMarginal> {};
template <> struct Fit<HasJoint> {};
template <> struct Fit<HasMeanMarginal> {};
template <> struct Fit<HasMeanJoint> {};
template <> struct Fit<HasMarginalJoint> {};
template <> struct Fit<HasAll> {};
} // namespace albatross
#define FITS(N) \
  al::Fit<N> _fit_impl(const std::vector<double> &, const al::MarginalDistribution &) const { return {}; }
#define MEAN(N) \
  V _predict_impl(const std::vector<double> &xs, const al::Fit<N> &, al::PredictTypeIdentity<V> &&) const { return Own::mean(xs); }
#define MARG(N) \
  al::MarginalDistribution _predict_impl(const std::vector<double> &xs, const al::Fit<N> &, al::PredictTypeIdentity<al::MarginalDistribution> &&) const { return Own::marginal(xs); }
#define JOIN(N) \
  al::JointDistribution _predict_impl(const std::vector<double> &xs, const al::Fit<N> &, al::PredictTypeIdentity<al::JointDistribution> &&) const { return Own::joint(xs); }
class HasMean : public al::ModelBase<HasMean> { public: FITS(HasMean) MEAN(HasMean) };
class HasMarginal : public al::ModelBase<HasMarginal> { public: FITS(HasMarginal) MARG(HasMarginal) };
class HasJoint : public al::ModelBase<HasJoint> { public: FITS(HasJoint) JOIN(HasJoint) };
class HasMeanMarginal : public al::ModelBase<HasMeanMarginal> { public: FITS(HasMeanMarginal) MEAN(HasMeanMarginal) MARG(HasMeanMarginal) };
class HasMeanJoint : public al::ModelBase<HasMeanJoint> { public: FITS(HasMeanJoint) MEAN(HasMeanJoint) JOIN(HasMeanJoint) };
class HasMarginalJoint : public al::ModelBase<HasMarginalJoint> { public: FITS(HasMarginalJoint) MARG(HasMarginalJoint) JOIN(HasMarginalJoint) };
class HasAll : public al::ModelBase<HasAll> { public: FITS(HasAll) MEAN(HasAll) MARG(HasAll) JOIN(HasAll) };
template <typename P> auto marginal_of(const P &p, int) -> decltype(J(jmarg(p.marginal()))) { return jmarg(p.marginal()); }
template <typename P> J marginal_of(const P &, long) { return j("none"); }
template <typename P> auto joint_of(const P &p, int) -> decltype(J(jjoint(p.joint()))) { return jjoint(p.joint()); }
template <typename P> J joint_of(const P &, long) { return j("none"); }
template <typename M> void kinds(const std::vector<const char *> &has, Rng &rng) {
  std::vector<double> xs;
  for (int i = rng.size(0, 4, 70, 20); i > 0; --i)
    xs.push_back(rng.dyadic());
  std::vector<J> h;
  for (const char *k : has)
    h.push_back(j(k));
  label("kinds " + arr(h).s);
  const auto fit = M().fit(al::RegressionDataset<double>({1.}, V(V::Ones(1))));
  auto log = [&](const auto &p) {
    single({{"op", j("kinds")}, {"has", arr(h)}, {"own", obj({{"mean", jv(Own::mean(xs))}, {"marginal", jmarg(Own::marginal(xs))}, {"joint", jjoint(Own::joint(xs))}})},
            {"mean", jv(p.mean())}, {"marginal", marginal_of(p, 0)}, {"joint", joint_of(p, 0)}});
  };
  log(fit.predict(xs));
  log(al::get_prediction(fit.get_model(), fit.get_fit(), xs));
}
int main(int argc, char **argv) {
  const Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  for (const auto &in : read_inputs(args.in)) {
    Idx train;
    for (const auto &t : in["train"])
      train.push_back(t.get<std::size_t>());
    const int n = in["n"].get<int>();
    conditional(train, n, rng);
    if (!train.empty() && rng.chance(1, 3)) { // the same variable observed twice
      train.push_back(rng.pick(train));
      conditional(train, n, rng);
    }
  }
  for (int i = 0; i < args.scale(3, 20); ++i) { // far more variables
    const int n = rng.range(20, 40);
    conditional(some_idx(n, rng.range(10, n), rng), n, rng);
  }
  for (int i = 0; i < args.scale(150, 2000); ++i)
    lines(rng);
  for (int i = 0; i < args.scale(20, 100); ++i) {
    std::vector<double> a, b;
    std::vector<std::string> s, t;
    for (int k = rng.size(0, 4, 70, 10); k > 0; --k) {
      a.push_back(rng.dyadic());
      s.push_back("s" + std::to_string(k));
    }
    for (int k = rng.size(0, 4, 70, 10); k > 0; --k) {
      b.push_back(rng.dyadic());
      t.push_back("t");
    }
    null_model(a, b, rng);
    null_model(s, t, rng);
    kinds<HasMean>({"mean"}, rng);
    kinds<HasMarginal>({"marginal"}, rng);
    kinds<HasJoint>({"joint"}, rng);
    kinds<HasMeanMarginal>({"mean", "marginal"}, rng);
    kinds<HasMeanJoint>({"mean", "joint"}, rng);
    kinds<HasMarginalJoint>({"marginal", "joint"}, rng);
    kinds<HasAll>({"mean", "marginal", "joint"}, rng);
  }
  return finish();
}
