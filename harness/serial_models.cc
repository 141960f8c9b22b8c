#include "serial_check.hpp"
#include <albatross/GP>
#include <albatross/LeastSquares>
#include <albatross/NullModel>
#include <albatross/Ransac>
#include <albatross/SparseGP>
#include <albatross/serialize/GP>
#include <albatross/serialize/LeastSquares>
#include <albatross/serialize/Ransac>
#include <albatross/serialize/Evaluation>
#include "kernels.hpp"
#include "gp_check.hpp"
template <typename M> J flat(const M &m) {
  std::vector<J> v;
  const Eigen::MatrixXd d = m;
  for (Eigen::Index i = 0; i < d.size(); ++i)
    v.push_back(j(d.data()[i]));
  return arr(v);
}
inline J all_of(const std::vector<J> &parts) { // concatenate lists
  std::string o;
  for (const auto &p : parts)
    if (p.s.size() > 2)
      o += (o.empty() ? "" : ",") + p.s.substr(1, p.s.size() - 2);
  return {"[" + o + "]"};
}
// ------------------------------------------------------------------- solvers
using Ldlt = Eigen::SerializableLDLT;
inline int size_of(int kind, Rng &rng) { return kind <= 1 ? 1 : kind == 4 ? rng.range(5, 40) : rng.range(2, 4); }
template <> struct Sample<Ldlt> {
  static Ldlt make(int kind, Rng &rng) { return kind == 0 ? Ldlt() : Ldlt(some_spd(size_of(kind, rng), rng)); }
  static J is(const Ldlt &x) {
    if (!x.is_initialized())
      return j("empty");
    return arr({jdense(Eigen::MatrixXd(x.matrixL())), jdense(Eigen::VectorXd(x.vectorD())), jdense(x.transpositionsP().indices()), j(x.rows() + 0)});
  }
  static J does(const Ldlt &x) {
    if (!x.is_initialized())
      return arr({});
    const Eigen::VectorXd b = Eigen::VectorXd::LinSpaced(x.rows(), 1., 2.);
    return all_of({flat(x.solve(b)), flat(x.sqrt_solve(b)), flat(x.sqrt_product(b)), flat(x.inverse_diagonal()), arr({j(x.log_determinant())}), flat(x.reconstructedMatrix()),
                   arr({j(x.isPositive() ? 1. : 0.), j(x.isNegative() ? 1. : 0.), j(x.rcond()), j(x.l1_norm()), j(x.info() == Eigen::Success ? 1. : 0.)})});
  }
};
using Sym = al::BlockSymmetric<Ldlt>;
template <> struct Sample<Sym> {
  static Sym make(int kind, Rng &rng) {
    const int n = size_of(kind, rng), m = rng.range(1, 3);
    const Eigen::MatrixXd S = some_spd(n + m, rng);
    return Sym(Ldlt(S.topLeftCorner(n, n)), S.topRightCorner(n, m), S.bottomRightCorner(m, m));
  }
  static J is(const Sym &x) { return x.rows() == 0 ? j("empty") : arr({Sample<Ldlt>::is(x.A), jdense(x.Ai_B), Sample<Ldlt>::is(x.S)}); }
  static J does(const Sym &x) { return x.rows() == 0 ? arr({}) : flat(x.solve(Eigen::VectorXd(Eigen::VectorXd::LinSpaced(x.rows(), 1., 2.)))); }
};
template <> struct Sample<al::ExplainedCovariance> {
  static al::ExplainedCovariance make(int kind, Rng &rng) {
    const int n = size_of(kind, rng);
    return al::ExplainedCovariance(some_spd(n, rng), some_spd(n, rng));
  }
  static J is(const al::ExplainedCovariance &x) { return arr({Sample<Ldlt>::is(x.outer_ldlt), jdense(x.inner)}); }
  static J does(const al::ExplainedCovariance &x) { return flat(x.solve(Eigen::VectorXd(Eigen::VectorXd::LinSpaced(x.rows(), 1., 2.)))); }
};
template <> struct Sample<al::DirectInverse> {
  static al::DirectInverse make(int kind, Rng &rng) { return al::DirectInverse(some_spd(size_of(kind, rng), rng)); }
  static J is(const al::DirectInverse &x) { return jdense(x.inverse_); }
  static J does(const al::DirectInverse &x) { return flat(x.solve(Eigen::MatrixXd(Eigen::MatrixXd::Ones(x.inverse_.rows(), 1)))); }
};
void solver_types(const std::vector<Script> &scripts, Rng &rng, int every) {
  all_archives<Ldlt>("LDLT", scripts, rng, every);
  all_archives<Sym>("BlockSymmetric", scripts, rng, every);
  all_archives<al::ExplainedCovariance>("ExplainedCovariance", scripts, rng, every);
  all_archives<al::DirectInverse>("DirectInverse", scripts, rng, every);
}
// -------------------------------------------------------------------- models
struct Flip { double operator()(double x) const { return x < 0. ? -1. : 1.; } };
static auto some_gp() { return al::gp_from_covariance_and_mean(al::SquaredExponential<al::EuclideanDistance>(2., 1.5) + al::measurement_only(al::IndependentNoise<double>(0.5)), al::LinearMean(), "gp"); }
using Gp = decltype(some_gp());
static auto some_sparse() { return al::sparse_gp_from_covariance(al::SquaredExponential<al::EuclideanDistance>(2., 1.5) + al::measurement_only(al::IndependentNoise<double>(0.5)), al::LeaveOneOutGrouper(), al::UniformlySpacedInducingPoints(4), "sparse"); }
using Sparse = decltype(some_sparse());
using Linear = al::LinearRegression;
using Null = al::NullModel;
template <typename M> void perturb(M &m, int kind, Rng &rng) {
  for (const auto &p : m.get_params())
    if (kind > 0)
      m.set_param_value(p.first, 0.5 + rng.range(1, 16) / 8.);
  if (kind > 0 && rng.coin()) {
    const auto params = m.get_params();
    if (!params.empty())
      m.set_prior(params.begin()->first, al::LogScaleUniformPrior(1e-3, 10. + rng.range(0, 9)));
  }
  if (kind > 1)
    m.insights["note"] = some_text(kind, rng);
}
template <typename M> struct Made;
template <> struct Made<Gp> {
  static Gp model() { return some_gp(); }
  static const bool named = true;
};
template <> struct Made<Sparse> {
  static Sparse model() { return some_sparse(); }
  static const bool named = true;
};
template <> struct Made<Linear> {
  static Linear model() { return Linear(); }
  static const bool named = false;
};
template <> struct Made<Null> {
  static Null model() { return Null(); }
  static const bool named = false;
};
template <typename M> J jparams(const M &m) {
  std::vector<J> v;
  for (const auto &p : m.get_params())
    v.push_back(arr({j(p.first), j(p.second.value), j(p.second.prior.get_name()), j(p.second.prior.lower_bound()), j(p.second.prior.upper_bound())}));
  return arr(v);
}
template <typename M> struct ModelSample : Plain {
  static M make(int kind, Rng &rng) {
    M m = Made<M>::model();
    perturb(m, kind, rng);
    if (Made<M>::named && kind > 1)
      rename(m, rng, 0);
    return m;
  }
  template <typename X> static auto rename(X &m, Rng &rng, int) -> decltype(m.set_name(""), void()) { m.set_name(some_text(2, rng)); }
  template <typename X> static void rename(X &, Rng &, long) {}
  static J is(const M &m) { return arr({jparams(m), j(m.insights), j(m.get_name())}); }
};
template <> struct Sample<Gp> : ModelSample<Gp> {};
template <> struct Sample<Sparse> : ModelSample<Sparse> {};
template <> struct Sample<Linear> : ModelSample<Linear> {};
template <> struct Sample<Null> : ModelSample<Null> {};

inline al::RegressionDataset<double> some_line(int kind, Rng &rng) {
  const int n = kind <= 1 ? 3 : kind == 4 ? 36 : rng.range(3, 6);
  std::vector<double> xs;
  for (int i = 0; i < n; ++i)
    xs.push_back(i + rng.range(0, 3) / 8.);
  al::MarginalDistribution t(Sample<Eigen::VectorXd>::make(2, rng).replicate(n, 1).topRows(n));
  for (int i = 0; i < n; ++i)
    t.mean[i] = rng.dyadic();
  return {xs, al::MarginalDistribution(t.mean, Eigen::VectorXd::Constant(n, 0.25))};
}
static const std::vector<double> kAsked = {-1., 0.3, 2.2};
template <typename F> auto predicted(const F &f, int) -> decltype(f.predict(kAsked).joint(), J()) {
  const auto p = f.predict(kAsked).joint();
  return all_of({flat(p.mean), flat(p.covariance)});
}
template <typename F> J predicted(const F &f, long) { return flat(f.predict(kAsked).mean()); }
template <typename Fit> J jfit(const Fit &) { return j("opaque"); }
template <typename C, typename X> J jfit(const al::Fit<al::GPFit<C, X>> &f) { return arr({j(f.train_features), jdense(f.information), Sample<C>::is(f.train_covariance)}); }
template <typename X> J jfit(const al::Fit<al::SparseGPFit<X>> &f) {
  return arr({j(f.train_features), jdense(f.information), Sample<Ldlt>::is(f.train_covariance), jdense(f.R), jdense(f.P.indices()), j(static_cast<long>(f.numerical_rank))});
}
template <typename I> J jfit(const al::Fit<al::LeastSquares<I>> &f) { return jdense(f.coefs); }
template <typename X> struct Sample<al::Fit<al::SparseGPFit<X>>> : Plain {
  static J is(const al::Fit<al::SparseGPFit<X>> &f) { return jfit(f); }
};
template <typename M> using Fitted = decltype(std::declval<const M &>().fit(std::declval<const al::RegressionDataset<double> &>()));
template <typename M> struct FitSample {
  static Fitted<M> make(int kind, Rng &rng) { return Sample<M>::make(kind, rng).fit(some_line(kind, rng)); }
  static J is(const Fitted<M> &f) { return arr({Sample<M>::is(f.get_model()), jfit(f.get_fit())}); }
  static J does(const Fitted<M> &f) {
    if (rows(f.get_fit(), 0) == 0)
      return arr({});
    return predicted(f, 0);
  }
  template <typename F> static auto rows(const F &f, int) -> decltype(f.information.size()) { return f.information.size(); }
  template <typename F> static auto rows(const F &f, int) -> decltype(f.coefs.size()) { return f.coefs.size(); }
  template <typename F> static Eigen::Index rows(const F &, long) { return 1; }
};
template <> struct Sample<Fitted<Gp>> : FitSample<Gp> {};
template <> struct Sample<Fitted<Sparse>> : FitSample<Sparse> {};
template <> struct Sample<Fitted<Linear>> : FitSample<Linear> {};
template <> struct Sample<Fitted<Null>> : FitSample<Null> {};
// -------------------------------------------------------------------- ransac
using Iter = al::RansacIteration<std::string>;
using Out = al::RansacOutput<int>;
template <typename K> K some_key(Rng &rng);
template <> inline int some_key<int>(Rng &rng) { return rng.range(-5, 5); }
template <> inline std::string some_key<std::string>(Rng &rng) { return "g" + std::to_string(rng.range(0, 9)); }
template <typename K> struct Sample<al::RansacIteration<K>> : Plain {
  static al::RansacIteration<K> make(int kind, Rng &rng) {
    al::RansacIteration<K> it;
    if (kind > 0) {
      for (int i = 0, n = rng.range(0, 3); i < n; ++i)
        it.candidates.push_back(some_key<K>(rng));
      for (int i = 0, n = rng.range(0, 3); i < n; ++i) {
        it.inliers[some_key<K>(rng)] = rng.dyadic();
        it.outliers[some_key<K>(rng)] = rng.dyadic();
      }
      it.consensus_metric_value = rng.dyadic();
    } else
      it.consensus_metric_value = 0.;
    return it;
  }
  static J is(const al::RansacIteration<K> &i) { return arr({j(i.candidates), j(i.inliers), j(i.outliers), j(i.consensus_metric_value)}); }
};
template <typename K> struct Sample<al::RansacOutput<K>> : Plain {
  static al::RansacOutput<K> make(int kind, Rng &rng) {
    al::RansacOutput<K> o;
    o.return_code = rng.pick(std::vector<al::ransac_return_code_t>{al::RANSAC_RETURN_CODE_SUCCESS, al::RANSAC_RETURN_CODE_INVALID_ARGUMENTS, al::RANSAC_RETURN_CODE_NO_CONSENSUS, al::RANSAC_RETURN_CODE_EXCEEDED_MAX_FAILED_CANDIDATES});
    o.best = Sample<al::RansacIteration<K>>::make(kind, rng);
    for (int i = 0, n = kind == 0 ? 0 : rng.range(0, 3); i < n; ++i)
      o.iterations.push_back(Sample<al::RansacIteration<K>>::make(kind, rng));
    return o;
  }
  static J is(const al::RansacOutput<K> &o) {
    std::vector<J> v;
    for (const auto &i : o.iterations)
      v.push_back(Sample<al::RansacIteration<K>>::is(i));
    return arr({j(static_cast<int>(o.return_code)), Sample<al::RansacIteration<K>>::is(o.best), arr(v)});
  }
};
struct ByFloor {
  int operator()(const double &x) const { return static_cast<int>(std::floor(x / 2.)); }
  template <typename Archive> void serialize(Archive &, const std::uint32_t) {}
};
static auto some_strategy() { return al::DefaultGPRansacStrategy(); }
using Robust = al::Ransac<Gp, al::DefaultGPRansacStrategy>;
template <> struct Sample<Fitted<Robust>> {
  using F = Fitted<Robust>;
  static F make(int kind, Rng &rng) {
    const auto m = Sample<Gp>::make(kind, rng);
    const al::RansacConfig config(kind == 1 ? -HUGE_VAL : 8., 1, 2, static_cast<std::size_t>(rng.range(1, 3)), 2);
    return Robust(m, al::DefaultGPRansacStrategy(), config).fit(some_line(kind, rng));
  }
  static J is(const F &f) {
    const auto &fit = f.get_fit();
    const bool empty = !fit.maybe_empty_fit_model.template is<Fitted<Gp>>();
    return arr({Sample<Out>::is(reinterpret(fit.ransac_output)), empty ? j("nothing") : Sample<Fitted<Gp>>::is(fit.maybe_empty_fit_model.template get<Fitted<Gp>>())});
  }
  template <typename K> static Out reinterpret(const al::RansacOutput<K> &o) {
    Out r;
    r.return_code = o.return_code;
    r.best = one(o.best);
    for (const auto &i : o.iterations)
      r.iterations.push_back(one(i));
    return r;
  }
  template <typename K> static al::RansacIteration<int> one(const al::RansacIteration<K> &i) {
    al::RansacIteration<int> r;
    for (const auto &k : i.candidates)
      r.candidates.push_back(static_cast<int>(k));
    for (const auto &k : i.inliers)
      r.inliers[static_cast<int>(k.first)] = k.second;
    for (const auto &k : i.outliers)
      r.outliers[static_cast<int>(k.first)] = k.second;
    r.consensus_metric_value = i.consensus_metric_value;
    return r;
  }
  static J does(const F &f) {
    const auto &fit = f.get_fit();
    if (!fit.maybe_empty_fit_model.template is<Fitted<Gp>>())
      return arr({});
    return Sample<Fitted<Gp>>::does(fit.maybe_empty_fit_model.template get<Fitted<Gp>>());
  }
};
void model_types(const std::vector<Script> &scripts, Rng &rng, int every) {
  all_archives<Gp>("GP", scripts, rng, every);
  all_archives<Sparse>("SparseGP", scripts, rng, every);
  all_archives<Linear>("LinearRegression", scripts, rng, every);
  all_archives<Null>("NullModel", scripts, rng, every);
  all_archives<Fitted<Gp>>("GP fit", scripts, rng, every);
  all_archives<Fitted<Sparse>>("SparseGP fit", scripts, rng, every);
  all_archives<Fitted<Linear>>("LinearRegression fit", scripts, rng, every);
  all_archives<Fitted<Null>>("NullModel fit", scripts, rng, every);
  all_archives<Iter>("RansacIteration", scripts, rng, every);
  all_archives<Out>("RansacOutput", scripts, rng, every);
  all_archives<Fitted<Robust>>("RANSAC fit", scripts, rng, every);
}

// archives written before a field was added lack it: it takes its documented value
template <typename T> Json written(const T &x) {
  std::ostringstream os;
  {
    cereal::JSONOutputArchive out(os);
    out(x);
  }
  return Json::parse(os.str());
}
void past_models(Rng &rng) {
  {
    auto m = Sample<Gp>::make(2, rng);
    Json text = written(m);
    text["value0"].erase("name");
    text["value0"]["cereal_class_version"] = 0;
    m.set_name(Gp().get_name());
    from_json<Gp>("GP without a name", text.dump(), Sample<Gp>::is(m));
  }
  {
    using F = al::Fit<al::SparseGPFit<double>>;
    const auto fitted = Sample<Fitted<Sparse>>::make(2, rng);
    F f = fitted.get_fit();
    Json text = written(f);
    text["value0"].erase("numerical_rank");
    text["value0"]["cereal_class_version"] = 1;
    f.numerical_rank = -1;
    from_json<F>("SparseGP fit without a rank", text.dump(), jfit(f));
  }
}
