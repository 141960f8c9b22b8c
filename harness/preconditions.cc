// C30: histories of calls whose pieces fit together or do not.
#define VERIF_EIGEN
#include "common.hpp"
#include "input.hpp"
#include <albatross/Common>
#include <albatross/Core>
#include <albatross/CovarianceFunctions>
#include <albatross/Dataset>
#include <albatross/Evaluation>
#include <albatross/GP>
#include <albatross/Graph>
#include <albatross/Indexing>
#include <albatross/Samplers>
#include <albatross/SparseGP>
#include <albatross/utils/CsvUtils>
#include <albatross/utils/MapUtils>
#include <albatross/utils/RandomUtils>
#include <albatross/src/polynomial/chebyshev.hpp>
#include <fcntl.h>
#include <sys/wait.h>
namespace al = albatross;
using namespace verif;
using Eigen::Index;
using Eigen::MatrixXd;
using Eigen::VectorXd;
static volatile double sink = 0.;
template <typename M> static void keep(const M &x) {
  for (Index i = 0; i < x.size(); ++i)
    sink = sink + x.data()[i];
}
static void keep(double x) { sink = sink + x; }
static VectorXd vec(Index n) { return VectorXd::LinSpaced(n, 1., 2.); }
static MatrixXd mat(Index r, Index c) {
  MatrixXd m(r, c);
  for (Index i = 0; i < r; ++i)
    for (Index k = 0; k < c; ++k)
      m(i, k) = i == k ? 3. : 0.5 / (1. + static_cast<double>(i + k));
  return m;
}
static al::MarginalDistribution marginal(Index n) { return al::MarginalDistribution(vec(n), Eigen::DiagonalMatrix<double, Eigen::Dynamic>(vec(n))); }
static al::JointDistribution joint(Index n) { return al::JointDistribution(vec(n), mat(n, n)); }
static std::vector<double> numbers(long n) {
  std::vector<double> xs;
  for (long i = 0; i < n; ++i)
    xs.push_back(static_cast<double>(i));
  return xs;
}
static al::RegressionDataset<double> dataset(long n) { return al::RegressionDataset<double>(numbers(n), marginal(n)); }
static al::BlockDiagonal blocks(const std::vector<int> &sizes) {
  al::BlockDiagonal b;
  for (int s : sizes)
    b.blocks.push_back(mat(s, s));
  return b;
}
static al::Grouped<int, MatrixXd> grouped(const std::vector<int> &keys) {
  al::Grouped<int, MatrixXd> g;
  for (int k : keys)
    g.emplace(k, mat(2, 2));
  return g;
}
static al::GroupIndexer<int> indexer(const Json &g) {
  al::GroupIndexer<int> out;
  int key = 0;
  for (const auto &x : g)
    out.emplace(key++, x.get<std::vector<std::size_t>>());
  return out;
}
struct Points { // a strategy which finds n points
  long n;
  template <typename C, typename X> std::vector<X> operator()(const C &, const std::vector<X> &xs) const { return std::vector<X>(xs.begin(), xs.begin() + n); }
};
struct Diagonal : public al::CovarianceFunction<Diagonal> {
  double off = 0.1, on = 1.;
  double _call_impl(const double &x, const double &y) const { return x == y ? on : off; }
};
struct Line : public al::MeanFunction<Line> {
  double _call_impl(const double &x) const { return x; }
};
struct Backwards : public al::DistanceMetric {
  double d = 0.;
  std::string get_name() const { return "backwards"; }
  double operator()(const double &, const double &) const { return d; }
};
template <template <typename> class K> static void at_distance(double d) {
  K<Backwards> k;
  Backwards b;
  b.d = d;
  k.distance_metric_ = b;
  keep(k(1., 2.));
}
static const char *names[] = {"a", "b", "c", "d", "e", "f"};
static al::ParameterStore store(long n) {
  al::ParameterStore p;
  for (long i = 0; i < n; ++i)
    p[names[i]] = al::Parameter(1., al::PositivePrior());
  return p;
}
static void csv_text(const std::vector<std::string> &columns, const std::vector<int> &widths, const al::ParameterStore *p) {
  std::stringstream ss;
  for (std::size_t i = 0; i < columns.size(); ++i)
    ss << (i ? "," : "") << columns[i];
  ss << "\n";
  for (int w : widths) {
    for (int i = 0; i < w; ++i)
      ss << (i ? "," : "") << "1.5";
    ss << "\n";
  }
  if (p)
    keep(static_cast<double>(al::initial_params_from_csv(*p, ss).size()));
  else
    keep(static_cast<double>(al::initial_params_from_csv(ss).size()));
}
static void call(const Json &c) {
  const std::string op = c["op"], kind = c.value("kind", "");
  const long n = c.value("n", 0L), m = c.value("m", 0L), k = c.value("k", 0L);
  const std::vector<int> a = c.value("a", std::vector<int>{}), b = c.value("b", std::vector<int>{});
  const std::vector<std::size_t> au(a.begin(), a.end());
  std::default_random_engine gen(7);
  if (op == "subset") {
    if (kind == "values")
      keep(static_cast<double>(al::subset(numbers(n), a).size()));
    else if (kind == "vector")
      keep(al::subset(vec(n), a));
    else if (kind == "rows")
      keep(al::subset_rows(mat(n, 2), a));
    else if (kind == "cols")
      keep(al::subset_cols(mat(2, n), a));
    else if (kind == "joint")
      keep(al::subset(joint(n), a).covariance);
    else if (kind == "marginal")
      keep(al::subset(marginal(n), a).mean);
    else if (kind == "dataset")
      keep(al::subset(dataset(n), au).targets.mean);
    else
      keep(VectorXd(al::symmetric_subset(Eigen::DiagonalMatrix<double, Eigen::Dynamic>(vec(n)), a).diagonal()));
  } else if (op == "subset_block")
    keep(al::subset(mat(n, m), a, b));
  else if (op == "symmetric_subset")
    keep(al::symmetric_subset(mat(n, m), a));
  else if (op == "set_subset") {
    VectorXd to = vec(m);
    if (kind == "vector") {
      al::set_subset(vec(n), a, &to);
      keep(to);
    } else {
      Eigen::DiagonalMatrix<double, Eigen::Dynamic> td(to);
      al::set_subset(Eigen::DiagonalMatrix<double, Eigen::Dynamic>(vec(n)), a, &td);
      keep(VectorXd(td.diagonal()));
    }
  } else if (op == "joint")
    keep(al::JointDistribution(vec(n), mat(m, k)).mean);
  else if (op == "two") {
    if (kind == "marginal")
      keep(al::MarginalDistribution(vec(n), Eigen::DiagonalMatrix<double, Eigen::Dynamic>(vec(m))).mean);
    else if (kind == "dataset")
      keep(al::RegressionDataset<double>(numbers(n), marginal(m)).targets.mean);
    else if (kind == "combination")
      keep(al::LinearCombination<double>(numbers(n), vec(m)).coefficients);
    else if (kind == "likelihood_diagonal")
      keep(al::negative_log_likelihood(vec(n), Eigen::DiagonalMatrix<double, Eigen::Dynamic>(vec(m))));
    else if (kind == "mean_added" || kind == "mean_removed") {
      VectorXd t = vec(m);
      if (kind == "mean_added")
        Line().add_to(numbers(n), &t);
      else
        Line().remove_from(numbers(n), &t);
      keep(t);
    } else if (kind == "with") {
      const auto xs = numbers(n), ys = numbers(m);
      keep(static_cast<double>(al::group_by(xs, [](const double &x) { return static_cast<int>(x) % 2; }).with(ys).size()));
    } else if (kind == "with_groups") {
      const auto xs = numbers(n);
      std::map<int, double> other;
      for (long i = 0; i < m; ++i)
        other[static_cast<int>(i)] = 1.;
      keep(static_cast<double>(al::group_by(xs, [](const double &x) { return static_cast<int>(x); }).with(other).size()));
    } else if (kind == "csv_rows") {
      std::ostringstream os;
      al::write_to_csv(os, dataset(n), marginal(m));
      keep(static_cast<double>(os.str().size()));
    } else
      keep(static_cast<double>(al::get_column_names(dataset(n), joint(m)).size()));
  } else if (op == "element") {
    if (kind == "joint")
      keep(joint(n).get_diagonal(m));
    else if (kind == "marginal")
      keep(marginal(n).get_diagonal(m));
    else
      keep(static_cast<double>(al::to_map(dataset(n), marginal(n), static_cast<std::size_t>(m)).size()));
  } else if (op == "likelihood")
    keep(al::negative_log_likelihood(vec(n), mat(m, k)));
  else if (op == "normal_sample")
    keep(al::random_multivariate_normal(vec(n), mat(m, k), gen));
  else if (op == "groups")
    keep(static_cast<double>(al::dataset_size_from_indexer(indexer(c["g"]))));
  else if (op == "reassemble") {
    const auto groups = indexer(c["g"]);
    if (kind == "mean") {
      al::Grouped<int, VectorXd> p;
      for (std::size_t i = 0; i < b.size(); ++i)
        p.emplace(b[i], vec(a[i]));
      keep(al::concatenate_mean_predictions(groups, p));
    } else if (kind == "marginal") {
      al::Grouped<int, al::MarginalDistribution> p;
      for (std::size_t i = 0; i < b.size(); ++i)
        p.emplace(b[i], marginal(a[i]));
      keep(al::concatenate_marginal_predictions(groups, p).mean);
    } else {
      std::map<int, al::JointDistribution> p;
      for (std::size_t i = 0; i < b.size(); ++i)
        p.emplace(b[i], joint(a[i]));
      keep(al::concatenate_marginal_predictions(groups, p).mean);
    }
  } else if (op == "fold") {
    if (kind == "free")
      keep(al::create_fold(au, dataset(n)).train_dataset.targets.mean);
    else {
      al::GroupIndexer<int> groups;
      groups.emplace(0, au);
      keep(static_cast<double>(al::folds_from_group_indexer(dataset(n), groups).size()));
    }
  } else if (op == "scores") {
    const auto groups = indexer(c["g"]);
    const auto folds = al::folds_from_group_indexer(dataset(static_cast<long>(al::dataset_size_from_indexer(groups))), groups);
    al::Grouped<int, VectorXd> p;
    for (std::size_t i = 0; i < a.size(); ++i)
      p.emplace(static_cast<int>(i), vec(a[i]));
    const auto sum = [](const VectorXd &x, const al::MarginalDistribution &) { return x.sum(); }; // fits any sizes
    keep(al::cross_validated_scores(sum, folds, p));
  } else if (op == "block_times") {
    const auto bd = blocks(a);
    const MatrixXd rhs = mat(n, 2);
    if (kind == "product")
      keep(bd * rhs);
    else if (kind == "solve")
      keep(bd.ldlt().solve(rhs));
    else
      keep(bd.ldlt().sqrt_solve(rhs));
  } else if (op == "block_minus")
    keep((blocks(a) - blocks(b)).diagonal());
  else if (op == "block_symmetric") {
    const MatrixXd A = mat(n, n) * 4., B = mat(n, m) * 0.1, C = mat(m, m) * 4.;
    keep(al::build_block_symmetric(Eigen::SerializableLDLT(A), B, C).solve(MatrixXd(mat(k, 2))));
  } else if (op == "grouped_product")
    keep(kind == "product" ? al::block_accumulate(grouped(a), grouped(b), [](const MatrixXd &x, const MatrixXd &y) -> MatrixXd { return x * y; }) : al::block_inner_product(grouped(a), grouped(b)));
  else if (op == "grouped_minus")
    keep(static_cast<double>(al::block_subtract(grouped(a), grouped(b)).size()));
  else if (op == "stack") {
    std::vector<MatrixXd> xs;
    for (int w : a)
      xs.push_back(mat(2, w));
    keep(al::vertical_stack(xs));
  } else if (op == "one_value") {
    if (kind == "set")
      keep(static_cast<double>(al::unique_value(std::set<int>(a.begin(), a.end()))));
    else
      keep(static_cast<double>(al::unique_value(a)));
  } else if (op == "strict_join") {
    std::map<int, int> x, y;
    for (int i : a)
      x[i] = 1;
    for (int i : b)
      y[i] = 2;
    keep(static_cast<double>(al::map_join_strict(x, y).size()));
  } else if (op == "sorted_keys") {
    const std::map<int, int> x{{0, 1}, {1, 2}, {2, 3}};
    keep(static_cast<double>(al::map_subset_sorted(x, a).size()));
  } else if (op == "forest") {
    al::Graph<int> g;
    g.vertices = std::set<int>(a.begin(), a.end());
    for (std::size_t i = 0; i + 1 < b.size(); i += 2)
      g.edges.emplace_back(b[i], b[i + 1], static_cast<double>(i));
    keep(static_cast<double>(al::minimum_spanning_forest(g).edges.size()));
  } else if (op == "bounds")
    keep(al::UniformPrior(static_cast<double>(n), static_cast<double>(m)).lower_bound());
  else if (op == "log_bounds")
    keep(al::LogScaleUniformPrior(static_cast<double>(n), static_cast<double>(m)).lower_bound());
  else if (op == "tunable_values")
    keep(static_cast<double>(al::set_tunable_params_values(store(n), std::vector<double>(static_cast<std::size_t>(m), 2.)).size()));
  else if (op == "degree") {
    const Eigen::ArrayXd x = vec(3).array() / 4.;
    if (kind == "t")
      keep(al::chebyshev_t(n, x));
    else if (kind == "t_basis")
      keep(al::chebyshev_t_phi(n, x));
    else if (kind == "u")
      keep(al::chebyshev_u(n, x));
    else
      keep(al::chebyshev_u_phi(n, x));
  } else if (op == "distance") {
    const double d = 0.5 * static_cast<double>(n);
    if (kind == "squared_exponential")
      at_distance<al::SquaredExponential>(d);
    else if (kind == "exponential")
      at_distance<al::Exponential>(d);
    else if (kind == "matern_32")
      at_distance<al::Matern32>(d);
    else
      at_distance<al::Matern52>(d);
  } else if (op == "to_size")
    keep(static_cast<double>(al::cast::to_size(static_cast<Index>(n))));
  else if (op == "to_double") {
    const long long x = (1LL << 53) + m;
    if (kind == "size")
      keep(al::cast::to_double(static_cast<std::size_t>(x)));
    else
      keep(al::cast::to_double(static_cast<Index>(kind == "index" ? x : -x)));
  } else if (op == "columns") {
    static const char *known[] = {"iteration", "log_probability", "ensemble_index", "else"};
    std::vector<std::string> columns;
    for (int i : a)
      columns.push_back(known[i]);
    columns.push_back("x");
    csv_text(columns, {4}, nullptr);
  } else if (op == "widths") {
    std::vector<std::string> columns{"iteration", "log_probability", "ensemble_index"};
    for (long i = 3; i < n; ++i)
      columns.push_back(names[i - 3]);
    csv_text(columns, a, nullptr);
  } else if (op == "parameters_read") {
    std::vector<std::string> columns{"iteration", "log_probability", "ensemble_index"};
    for (long i = 0; i < n; ++i)
      columns.push_back(names[i]);
    const auto p = store(m);
    csv_text(columns, {static_cast<int>(n + 3)}, &p);
  } else if (op == "parameters_named") {
    std::vector<std::string> columns{"iteration", "log_probability", "ensemble_index"};
    for (int i : a)
      columns.push_back(names[i]);
    const auto p = store(n);
    csv_text(columns, {static_cast<int>(n + 3)}, &p);
  } else if (op == "finite_states") {
    al::EnsembleSamplerState s;
    for (long i = 0; i < 5; ++i)
      s.push_back({{static_cast<double>(i), 1.}, i < n ? -1. : -std::numeric_limits<double>::infinity(), true});
    keep(static_cast<double>(al::ensure_finite_initial_state([](const std::vector<double> &) { return -2.; }, s, gen).size()));
  } else if (op == "not_a_number") {
    Diagonal d;
    const double bad = n == 0 ? 0.2 : std::numeric_limits<double>::quiet_NaN();
    VectorXd noise = vec(3);
    if (kind == "off")
      d.off = bad;
    else if (kind == "on")
      d.on = bad;
    else
      noise[1] = bad;
    const auto model = al::gp_from_covariance(d);
    const al::MarginalDistribution y(vec(3), Eigen::DiagonalMatrix<double, Eigen::Dynamic>(noise));
    keep(model.fit(numbers(3), y).predict(numbers(2)).mean());
  } else if (op == "inducing_points") {
    const auto model = al::sparse_gp_from_covariance(al::SquaredExponential<al::EuclideanDistance>(1., 1.), al::LeaveOneOutGrouper(), Points{n}, "sparse");
    keep(model.fit(dataset(4)).predict(numbers(2)).mean());
  } else if (op == "initialized")
    keep((n ? Eigen::SerializableLDLT(mat(2, 2)) : Eigen::SerializableLDLT()).l1_norm());
  else if (op == "exists") {
    auto p = store(n);
    if (kind == "value")
      al::set_param_value(names[m], 2., &p);
    else if (kind == "prior")
      al::set_param_prior(names[m], al::NonNegativePrior(), &p);
    else
      al::set_param(names[m], al::Parameter(2.), &p);
    keep(static_cast<double>(p.size()));
  } else if (op == "datasets") {
    std::ostringstream os;
    al::write_to_csv(os, std::vector<al::RegressionDataset<double>>(static_cast<std::size_t>(n), dataset(2)), std::vector<al::MarginalDistribution>(static_cast<std::size_t>(m), marginal(2)));
    keep(static_cast<double>(os.str().size()));
  } else
    _exit(77);
}
// how many calls of the history complete
static int completed(const std::vector<Json> &calls) {
  fflush(nullptr);
  int fd[2];
  if (pipe(fd))
    exit(3);
  const pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    const int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS})
      signal(s, SIG_DFL);
    std::set_terminate([] { _exit(9); });
    alarm(20);
    for (const auto &c : calls) {
      call(c);
      if (write(fd[1], "x", 1) != 1)
        _exit(8);
    }
    _exit(0);
  }
  close(fd[1]);
  int n = 0;
  char x;
  while (read(fd[0], &x, 1) == 1)
    ++n;
  close(fd[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 77) {
    fprintf(stderr, "unknown call\n");
    exit(3);
  }
  return n;
}
static J raw(const Json &x) {
  if (x.is_array()) {
    std::vector<J> o;
    for (const auto &y : x)
      o.push_back(raw(y));
    return arr(o);
  }
  if (x.is_string())
    return j(x.get<std::string>());
  return j(x.get<long>());
}
static bool history(const std::vector<Json> &calls) {
  std::vector<J> log;
  for (const auto &c : calls) {
    Fields f;
    for (const auto &kv : c.items())
      f.push_back({kv.key(), raw(kv.value())});
    log.push_back(obj(f));
  }
  const int n = completed(calls);
  single({{"op", j("history")}, {"calls", arr(log)}, {"completed", j(n)}});
  return n == static_cast<int>(calls.size());
}
int main(int argc, char **argv) {
  const auto args = parse_args(argc, argv);
  Rng r(args.seed);
  std::vector<Json> fit, all;
  for (const auto &line : read_inputs(args.in)) {
    label("single call");
    const Json c = line["calls"][0];
    all.push_back(c);
    if (history({c}))
      fit.push_back(c);
  }
  const auto any = [&](const std::vector<Json> &from) { return from[static_cast<std::size_t>(r.range(0, static_cast<int>(from.size()) - 1))]; };
  for (int i = 0; i < args.scale(100, 2000); ++i) {
    label("history");
    std::vector<Json> calls;
    for (int k = r.range(1, 4); k > 0; --k)
      calls.push_back(any(fit));
    calls.push_back(any(all));
    calls.push_back(any(fit));
    history(calls);
  }
  return finish();
}
