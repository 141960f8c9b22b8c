#include "lc_check.hpp"

template <typename X> J tagless(const X &x) { return jf(x); }

template <typename X> void products(const Eigen::MatrixXd &A, Rng &rng) {
  const auto xs = features<X>(static_cast<int>(A.cols()), rng);
  auto log = [&](const char *kind, const auto &out) {
    single({{"op", j("product")}, {"kind", j(kind)}, {"A", jm(A)}, {"xs", jfs(xs)}, {"out", jfs(out)}});
  };
  log("dense", A * xs);
  const Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> row = A;
  log("dense row major", row * xs);
  log("expression", (2. * A - A) * xs);
  Eigen::SparseMatrix<double> s(A.rows(), A.cols());
  std::vector<Eigen::Triplet<double>> t;
  for (Eigen::Index i = 0; i < A.rows(); ++i)
    for (Eigen::Index k = 0; k < A.cols(); ++k)
      if (A(i, k) != 0. || rng.chance(1, 4)) // explicit zeros are allowed
        t.emplace_back(i, k, A(i, k));
  rng.shuffle(t);
  s.setFromTriplets(t.begin(), t.end());
  log("sparse", s * xs);
  const Eigen::SparseMatrix<double, Eigen::RowMajor> sr = s;
  log("sparse row major", sr * xs);
  Eigen::SparseMatrix<double> loose(A.rows(), A.cols());
  for (Eigen::Index i = 0; i < A.rows(); ++i)
    for (Eigen::Index k = 0; k < A.cols(); ++k)
      if (A(i, k) != 0.)
        loose.insert(i, k) = A(i, k);
  log("sparse uncompressed", loose * xs);
}
template <typename X> void builders(Rng &rng) {
  namespace lc = al::linear_combination;
  const X x = Gen<X>::make(rng), y = Gen<X>::make(rng);
  auto log = [&](const char *kind, const std::vector<X> &of, const std::vector<double> &c, const auto &out) {
    single({{"op", j("build")}, {"kind", j(kind)}, {"of", jfs(of)}, {"c", j(c)}, {"out", jf(out)}});
  };
  log("sum", {x, y}, {1., 1.}, lc::sum(x, y));
  log("difference", {x, y}, {1., -1.}, lc::difference(x, y));
  const int n = rng.size(1, 6, 80);
  const auto xs = features<X>(n, rng);
  log("mean", xs, std::vector<double>(xs.size(), 1. / n), lc::mean(xs));
  log("single", {x}, {1.}, lc::to_linear_combination(x));
  log("ones", xs, std::vector<double>(xs.size(), 1.), al::LinearCombination<X>(xs));
  const auto c = Gen<al::LinearCombination<X>>::make(rng);
  const std::vector<double> coefs(c.coefficients.data(), c.coefficients.data() + c.coefficients.size());
  log("unchanged", c.values, coefs, lc::to_linear_combination(c));
}
template <typename M, typename X> void mean_of(const M &m, Rng &rng, int n) {
  if constexpr (al::has_valid_caller<M, X>::value) {
    for (int i = 0; i < n; ++i) {
      const X x = Gen<X>::make(rng);
      step({{"op", j("mean")}, {"x", jf(x)}, {"out", j(double(m(x)))}});
    }
    const auto xs = features<X>(rng.range(0, 4), rng);
    step({{"op", j("mean_vector")}, {"xs", jfs(xs)}, {"out", jv(m(xs))}});
  }
}
template <typename M> void means(const E<M> &e, Rng &rng, const Args &args) {
  label("means " + e.name);
  step({{"op", j("mean_expr")}, {"expr", e.tree}});
  const int n = args.scale(6, 30);
  mean_of<M, LC<double>>(e.cov, rng, n);
  mean_of<M, LC<Site>>(e.cov, rng, n);
  mean_of<M, LC<VDS>>(e.cov, rng, n);
  mean_of<M, al::Measurement<LC<double>>>(e.cov, rng, n);
  mean_of<M, al::Measurement<LC<VDS>>>(e.cov, rng, n);
  mean_of<M, Var<double, LC<double>>>(e.cov, rng, n);
  end_behaviour();
}

int main(int argc, char **argv) {
  const Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  label("products");
  for (const auto &in : read_inputs(args.in)) {
    const auto rows = in.at("A");
    Eigen::MatrixXd A(rows.size(), rows[0].size());
    for (std::size_t r = 0; r < rows.size(); ++r)
      for (std::size_t c = 0; c < rows[r].size(); ++c)
        A(static_cast<int>(r), static_cast<int>(c)) = rows[r][c].get<double>();
    products<double>(A, rng);
    products<LC<double>>(A, rng);
  }
  for (int i = 0; i < args.scale(25, 300); ++i) {
    const bool large = i % 12 == 5;
    const Eigen::MatrixXd A = large ? random_matrix(rng.range(12, 40), rng.range(12, 40), rng) : random_matrix(rng.range(1, 5), rng.range(1, 5), rng);
    products<VDS>(A, rng);
    products<LC<VDS>>(A, rng);
    products<Eigen::VectorXd>(A, rng);
    products<LC<Site>>(A, rng);
    builders<double>(rng);
    builders<Site>(rng);
    builders<VDS>(rng);
  }
  {
    // features of unequal type are combined through a tagged union
    const Site s = Gen<Site>::make(rng);
    const double d = Gen<double>::make(rng);
    auto log = [&](const char *kind, double c, const auto &out) {
      single({{"op", j("build")}, {"kind", j(kind)}, {"of", arr({jf(d), jf(s)})}, {"c", j(std::vector<double>{1., c})}, {"out", jf(out)}});
    };
    log("sum of two types", 1., al::linear_combination::sum(d, s));
    log("difference of two types", -1., al::linear_combination::difference(d, s));
  }
  for (int i = 0; i < args.scale(2, 8); ++i) {
    means(zero_mean(), rng, args);
    means(linear_mean(0.5, 2.), rng, args);
    means(linear_mean(0.5, 2.) + site_mean(1.5), rng, args);
    means(linear_mean(0.5, 2.) * site_mean(1.5), rng, args);
    means(linear_mean(0.5, 2.) * site_mean(1.5) + bias_mean(0.75), rng, args);
    means((zero_mean() + linear_mean(0.5, 1.)) * site_mean(0.25), rng, args);
    lc_a(rng, args);
    lc_b(rng, args);
    lc_c(rng, args);
  }
  return finish();
}
