#include "serial_check.hpp"
#include <gzip/compress.hpp>
template <> struct Sample<Eigen::DiagonalMatrix<double, Eigen::Dynamic>> : Plain {
  using D = Eigen::DiagonalMatrix<double, Eigen::Dynamic>;
  static D make(int kind, Rng &rng) { return D(Sample<Eigen::VectorXd>::make(kind, rng)); }
  static J is(const D &d) { return jdense(Eigen::VectorXd(d.diagonal())); }
};
inline Eigen::VectorXi some_permutation(int kind, Rng &rng) {
  std::vector<int> p(static_cast<std::size_t>(kind == 0 ? 0 : kind == 1 ? 1 : kind == 4 ? rng.range(40, 300) : rng.range(2, 7)));
  std::iota(p.begin(), p.end(), 0);
  rng.shuffle(p);
  return Eigen::Map<Eigen::VectorXi>(p.data(), static_cast<Eigen::Index>(p.size()));
}
using Perm = Eigen::PermutationMatrix<Eigen::Dynamic, Eigen::Dynamic>;
template <> struct Sample<Perm> {
  static Perm make(int kind, Rng &rng) { return Perm(some_permutation(kind, rng)); }
  static J is(const Perm &p) { return jdense(Eigen::VectorXi(p.indices())); }
  static J does(const Perm &p) { return jv(p * Eigen::VectorXd::LinSpaced(p.rows(), 1., 2.)); }
};
using Trans = Eigen::Transpositions<Eigen::Dynamic, Eigen::Dynamic>;
template <> struct Sample<Trans> {
  static Trans make(int kind, Rng &rng) {
    Eigen::VectorXi t = some_permutation(kind, rng);
    for (Eigen::Index i = 0; i < t.size(); ++i)
      t[i] = rng.range(static_cast<int>(i), static_cast<int>(t.size()) - 1);
    return Trans(t);
  }
  static J is(const Trans &p) { return jdense(Eigen::VectorXi(p.indices())); }
  static J does(const Trans &p) { return jv(p * Eigen::VectorXd::LinSpaced(p.size(), 1., 2.)); }
};
template <typename I, int O> struct Sample<Eigen::SparseMatrix<double, O, I>> {
  using M = Eigen::SparseMatrix<double, O, I>;
  static M make(int kind, Rng &rng) {
    const auto s = some_shape(kind, rng);
    M m(s.first, s.second);
    std::vector<Eigen::Triplet<double>> t;
    for (int r = 0; r < s.first; ++r)
      for (int c = 0; c < s.second; ++c)
        if (rng.chance(2, 3))
          t.emplace_back(r, c, some_real(kind, rng));
    if (rng.coin()) {
      m.setFromTriplets(t.begin(), t.end());
      return m;
    }
    // element by element, with room to spare
    m.reserve(Eigen::VectorXi::Constant(m.outerSize(), rng.range(1, 4)));
    rng.shuffle(t);
    for (const auto &x : t)
      m.insert(x.row(), x.col()) = x.value();
    if (rng.chance(1, 4))
      m.makeCompressed();
    return m;
  }
  static J is(const M &m) {
    std::vector<J> v;
    for (Eigen::Index o = 0; o < m.outerSize(); ++o)
      for (typename M::InnerIterator it(m, o); it; ++it)
        v.push_back(arr({j(static_cast<long>(it.row())), j(static_cast<long>(it.col())), j(it.value())}));
    return same_shape(m.rows(), m.cols(), arr(v));
  }
  static J does(const M &m) {
    Eigen::VectorXd x = Eigen::VectorXd::LinSpaced(m.cols(), 1., 2.);
    return jv(Eigen::VectorXd(m * x));
  }
};
using Info = std::map<std::string, std::string>;
inline Info some_info(int kind, Rng &rng) {
  Info m;
  for (int i = 0, n = kind == 0 ? 0 : rng.range(0, 2); i < n; ++i)
    m["key" + std::to_string(rng.range(0, 5))] = some_text(rng.range(0, 3), rng);
  return m;
}
template <> struct Sample<al::MarginalDistribution> : Plain {
  static al::MarginalDistribution make(int kind, Rng &rng) {
    const Eigen::VectorXd m = Sample<Eigen::VectorXd>::make(kind, rng);
    Eigen::VectorXd v(m.size());
    for (Eigen::Index i = 0; i < v.size(); ++i)
      v[i] = some_real(kind, rng);
    al::MarginalDistribution d(m, v);
    d.metadata = some_info(kind, rng);
    return d;
  }
  static J is(const al::MarginalDistribution &d) { return arr({jdense(d.mean), jdense(Eigen::VectorXd(d.covariance.diagonal())), j(d.metadata)}); }
};
template <> struct Sample<al::JointDistribution> : Plain {
  static al::JointDistribution make(int kind, Rng &rng) {
    const Eigen::VectorXd m = Sample<Eigen::VectorXd>::make(kind, rng);
    Eigen::MatrixXd v(m.size(), m.size());
    for (Eigen::Index i = 0; i < v.size(); ++i)
      v.data()[i] = some_real(kind, rng);
    al::JointDistribution d(m, v);
    d.metadata = some_info(kind, rng);
    return d;
  }
  static J is(const al::JointDistribution &d) { return arr({jdense(d.mean), jdense(d.covariance), j(d.metadata)}); }
};
using Tagged = mapbox::util::variant<int, double, std::string, Eigen::VectorXd>;
template <> struct Sample<Tagged> : Plain {
  static Tagged make(int kind, Rng &rng) {
    switch (rng.range(0, 3)) {
    case 0: return Tagged(Sample<int>::make(kind, rng));
    case 1: return Tagged(Sample<double>::make(kind, rng));
    case 2: return Tagged(Sample<std::string>::make(kind, rng));
    default: return Tagged(Eigen::VectorXd(Sample<Eigen::VectorXd>::make(kind, rng)));
    }
  }
  static J is(const Tagged &v) {
    return v.match([&](const auto &x) { return arr({j(v.which()), Sample<std::decay_t<decltype(x)>>::is(x)}); });
  }
};
using Combo = al::LinearCombination<double>;
template <> struct Sample<Combo> : Plain {
  static Combo make(int kind, Rng &rng) {
    const Eigen::VectorXd c = Sample<Eigen::VectorXd>::make(kind, rng);
    std::vector<double> v;
    for (Eigen::Index i = 0; i < c.size(); ++i)
      v.push_back(rng.dyadic());
    return Combo(v, c);
  }
  static J is(const Combo &c) { return arr({j(c.values), jdense(c.coefficients)}); }
};
template <typename X> struct Sample<al::RegressionDataset<X>> : Plain {
  using D = al::RegressionDataset<X>;
  static D make(int kind, Rng &rng) {
    const auto targets = Sample<al::MarginalDistribution>::make(kind, rng);
    std::vector<X> xs;
    for (Eigen::Index i = 0; i < targets.mean.size(); ++i)
      xs.push_back(Sample<X>::make(kind == 0 ? 2 : kind, rng));
    D d(xs, targets);
    d.metadata = some_info(kind, rng);
    return d;
  }
  static J is(const D &d) {
    std::vector<J> f;
    for (const auto &x : d.features)
      f.push_back(Sample<X>::is(x));
    return arr({arr(f), Sample<al::MarginalDistribution>::is(d.targets), j(d.metadata)});
  }
};
template <> struct Sample<al::PriorContainer> {
  static al::PriorContainer make(int kind, Rng &rng) {
    const double a = rng.dyadic(1, 40), b = rng.dyadic(1, 40) / 3.;
    switch (kind < 0 ? 0 : rng.range(0, 8)) {
    case 0: return al::PriorContainer(al::UninformativePrior());
    case 1: return al::PriorContainer(al::FixedPrior());
    case 2: return al::PriorContainer(al::PositivePrior());
    case 3: return al::PriorContainer(al::NonNegativePrior());
    case 4: return al::PriorContainer(al::UniformPrior(-a, b));
    case 5: return al::PriorContainer(al::LogScaleUniformPrior(b / 100., 10. + a));
    case 6: return al::PriorContainer(al::GaussianPrior(a, b));
    case 7: return al::PriorContainer(al::PositiveGaussianPrior(a, b));
    default: return al::PriorContainer(al::LogNormalPrior(a, b));
    }
  }
  static J is(const al::PriorContainer &p) { return arr({j(p.get_name()), j(p.lower_bound()), j(p.upper_bound()), j(p.is_log_scale()), j(p.is_fixed()), j(p.priors_.which())}); }
  static J does(const al::PriorContainer &p) {
    std::vector<J> v;
    for (const double x : {0.25, 1., 3.5})
      v.push_back(j(p.log_pdf(x)));
    return arr(v);
  }
};
template <> struct Sample<al::Parameter> {
  static al::Parameter make(int kind, Rng &rng) { return al::Parameter(Sample<double>::make(kind, rng), Sample<al::PriorContainer>::make(kind, rng)); }
  static J is(const al::Parameter &p) { return arr({j(p.value), Sample<al::PriorContainer>::is(p.prior)}); }
  static J does(const al::Parameter &p) { return arr({j(p.is_valid() ? 1. : 0.), j(p.prior.log_pdf(1.))}); }
};
template <> struct Sample<al::ParameterStore> : Plain {
  static al::ParameterStore make(int kind, Rng &rng) {
    al::ParameterStore s;
    for (int i = 0, n = kind == 0 ? 0 : kind == 1 ? 1 : kind == 4 ? 60 : rng.range(2, 5); i < n; ++i)
      s["param_" + std::to_string(rng.range(0, kind == 4 ? 99 : 7))] = Sample<al::Parameter>::make(kind, rng);
    return s;
  }
  static J is(const al::ParameterStore &s) {
    std::vector<J> v;
    for (const auto &p : s)
      v.push_back(arr({j(p.first), Sample<al::Parameter>::is(p.second), Sample<al::Parameter>::does(p.second)}));
    return arr(v);
  }
};
template <typename T> struct Lower { // the triangle helpers need a wrapper to be used in an archive
  T m;
};
namespace cereal {
template <typename Archive, typename T> void save(Archive &ar, const Lower<T> &x) { save_lower_triangle(ar, x.m); }
template <typename Archive, typename T> void load(Archive &ar, Lower<T> &x) { load_lower_triangle(ar, x.m); }
} // namespace cereal
template <> struct Sample<Lower<Eigen::MatrixXd>> : Plain {
  using L = Lower<Eigen::MatrixXd>;
  static L make(int kind, Rng &rng) {
    const auto n = Sample<Eigen::VectorXd>::make(kind, rng).size();
    Eigen::MatrixXd m(n, n);
    for (Eigen::Index i = 0; i < m.size(); ++i)
      m.data()[i] = some_real(kind, rng);
    return {m};
  }
  static J is(const L &x) {
    std::vector<J> v;
    for (Eigen::Index r = 0; r < x.m.rows(); ++r)
      for (Eigen::Index c = 0; c <= r; ++c)
        v.push_back(j(x.m(r, c)));
    return same_shape(x.m.rows(), x.m.cols(), arr(v));
  }
};
using Pool = std::shared_ptr<ThreadPool>;
template <> struct Sample<Pool> : Plain {
  static Pool make(int kind, Rng &rng) { return kind == 0 ? nullptr : std::make_shared<ThreadPool>(static_cast<std::size_t>(kind == 1 ? 2 : rng.range(2, 5))); }
  static J is(const Pool &p) { return j(p ? static_cast<int>(p->thread_count()) : 0); }
};

// -------------------------------------------------------- archives of the past
static void past(Rng &rng) {
  for (int which = 0; which < 3; ++which) {
    const int i = rng.range(-50, 50);
    const std::string data = which == 0 ? std::to_string(i) : which == 1 ? std::to_string(i) + ".25" : "\"text\"";
    const J value = which == 0 ? j(i) : which == 1 ? j(i < 0 ? i - 0.25 : i + 0.25) : j("text");
    from_json<Tagged>("variant without its type's name", "{\"value0\":{\"cereal_class_version\":0,\"which\":" + std::to_string(which) + ",\"data\":" + data + "}}", arr({j(which), value}));
  }
  // dense matrices were once compressed with gzip
  const Eigen::MatrixXd m = Sample<Eigen::MatrixXd>::make(4, rng);
  const std::string z = gzip::compress(reinterpret_cast<const char *>(m.data()), static_cast<std::size_t>(m.size()) * sizeof(double));
  const std::string payload = cereal::base64::encode(reinterpret_cast<const unsigned char *>(z.data()), z.size());
  from_json<Eigen::MatrixXd>("gzip matrix", "{\"value0\":{\"cereal_class_version\":0,\"rows\":" + std::to_string(m.rows()) + ",\"cols\":" + std::to_string(m.cols()) + ",\"payload\":\"" + payload + "\"}}", jdense(m));
}
static bool wanted(const char *t) {
  static const char *only = getenv("ONLY");
  return !only || std::string(t).find(only) != std::string::npos;
}
int main(int argc, char **argv) {
  const Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  std::vector<Script> scripts;
  for (const auto &s : read_inputs(args.in)) {
    Script c;
    for (const auto &k : s["writes"])
      c.writes.push_back(k.get<int>());
    for (const auto &k : s["cells"])
      c.cells.push_back(k.get<int>());
    scripts.push_back(c);
  }
  const int every = args.scale(60, 6);
#define ALL(...) if (wanted(#__VA_ARGS__)) all_archives<__VA_ARGS__>(#__VA_ARGS__, scripts, rng, every)
  for (int round = 0; round < args.scale(1, 4); ++round) {
    ALL(Eigen::VectorXd);
    ALL(Eigen::MatrixXd);
    ALL(Eigen::RowVectorXd);
    ALL(Eigen::Matrix3d);
    ALL(Eigen::Matrix<double, 2, Eigen::Dynamic>);
    ALL(Eigen::MatrixXi);
    ALL(Eigen::VectorXf);
    ALL(Perm);
    ALL(Trans);
    ALL(Lower<Eigen::MatrixXd>);
    ALL(Eigen::SparseMatrix<double>);
    ALL(Eigen::SparseMatrix<double, Eigen::RowMajor, int>);
    ALL(Eigen::SparseMatrix<double, Eigen::ColMajor, long>);
    ALL(al::MarginalDistribution);
    ALL(al::JointDistribution);
    ALL(Tagged);
    ALL(Combo);
    ALL(al::RegressionDataset<double>);
    ALL(al::RegressionDataset<std::string>);
    ALL(al::RegressionDataset<Tagged>);
    ALL(al::RegressionDataset<Combo>);
    ALL(al::PriorContainer);
    ALL(al::Parameter);
    ALL(al::ParameterStore);
    ALL(Pool);
    if (wanted("solver")) solver_types(scripts, rng, every);
    if (wanted("models")) model_types(scripts, rng, every * 2);
    if (wanted("sparse_types")) sparse_types(scripts, rng, every);
    past(rng);
    past_models(rng);
  }
  ALL(Eigen::DiagonalMatrix<double, Eigen::Dynamic>);
  return finish();
}
