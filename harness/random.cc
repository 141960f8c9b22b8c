#define VERIF_EIGEN
#include "common.hpp"
#include "input.hpp"
#include "stops.hpp"
#include <albatross/Core>
#include <albatross/Dataset>
#include <albatross/GP>
#include <albatross/Indexing>
#include <albatross/utils/RandomUtils>
namespace al = albatross;
using namespace verif;
using Gen = std::default_random_engine;
using S = std::vector<std::size_t>;

static void positions(Gen &gen, std::size_t n, std::size_t low, std::size_t high) {
  Gen before = gen;
  S out;
  const bool stopped = n > high - low + 1 && stops([&] { al::randint_without_replacement(n, low, high, before); });
  if (!stopped)
    out = al::randint_without_replacement(n, low, high, gen);
  step({{"op", j("positions")}, {"n", j(n)}, {"low", j(low)}, {"high", j(high)}, {"stopped", j(stopped)}, {"out", j(out)}});
  if (!stopped)
    step({{"op", j("repeat")}, {"a", j(out)}, {"b", j(al::randint_without_replacement(n, low, high, before))}});
  end_behaviour();
}
// among far more positions than could be listed
static void far_positions(Gen &gen, std::size_t n, std::size_t low, std::size_t high) {
  const auto out = al::randint_without_replacement(n, low, high, gen);
  std::vector<std::string> o;
  for (const auto &x : out)
    o.push_back(std::to_string(x));
  single({{"op", j("far_positions")}, {"n", j(n)}, {"low", j(std::to_string(low))}, {"high", j(std::to_string(high))}, {"out", j(o)}});
}
template <typename X> static void elements(Gen &gen, std::size_t n, const std::vector<X> &xs) {
  Gen before = gen;
  const std::vector<X> given = xs;
  std::vector<X> out;
  const bool stopped = n > xs.size() && stops([&] { al::random_without_replacement(xs, n, before); });
  if (!stopped)
    out = al::random_without_replacement(xs, n, gen);
  step({{"op", j("elements")}, {"n", j(n)}, {"xs", j(given)}, {"xs_after", j(xs)}, {"stopped", j(stopped)}, {"out", j(out)}});
  if (!stopped)
    step({{"op", j("repeat")}, {"a", j(out)}, {"b", j(al::random_without_replacement(xs, n, before))}});
  end_behaviour();
}
static void counts(Gen &gen, std::size_t n, std::size_t low, std::size_t high, int draws, bool of_elements) {
  std::map<S, int> seen;
  S xs;
  for (std::size_t i = low; i <= high; ++i)
    xs.push_back(i);
  for (int i = 0; i < draws; ++i) {
    auto s = of_elements ? al::random_without_replacement(xs, n, gen) : al::randint_without_replacement(n, low, high, gen);
    std::sort(s.begin(), s.end());
    ++seen[s];
  }
  single({{"op", j("counts")}, {"n", j(n)}, {"low", j(low)}, {"high", j(high)}, {"sets", j(seen)}});
}
template <typename M> static std::vector<double> flat(const M &m) {
  std::vector<double> o;
  for (Eigen::Index c = 0; c < m.cols(); ++c)
    for (Eigen::Index r = 0; r < m.rows(); ++r)
      o.push_back(m(r, c));
  return o;
}
template <typename M> static void fill(Rng &r, M x, double mean, double sd, int form) {
  M again = x, next = x;
  Gen gen(static_cast<unsigned>(r.range(1, 1000000)));
  Gen copy = gen;
  std::uniform_real_distribution<double> u(mean - sd * std::sqrt(3.), mean + sd * std::sqrt(3.));
  if (form == 0) {
    al::gaussian_fill(x, mean, sd, gen);
    al::gaussian_fill(again, mean, sd, copy);
    al::gaussian_fill(next, mean, sd, gen);
  } else if (form == 1) {
    al::gaussian_fill(x, gen);
    al::gaussian_fill(again, copy);
    al::gaussian_fill(next, gen);
  } else if (form == 2) {
    al::gaussian_fill(x);
    al::gaussian_fill(again);
  } else {
    al::random_fill(x, u, gen);
    al::random_fill(again, u, copy);
    al::random_fill(next, u, gen);
  }
  single({{"op", j("fill")}, {"rows", j(x.rows())}, {"cols", j(x.cols())}, {"mean", j(mean)}, {"sd", j(sd)}, {"advances", j(form != 2)},
          {"out", j(flat(x))}, {"again", j(flat(again))}, {"next", form == 2 ? j(std::vector<double>()) : j(flat(next))}});
}
static Eigen::MatrixXd some_covariance(Rng &r, Eigen::Index n) {
  Eigen::MatrixXd a(n, n);
  for (Eigen::Index i = 0; i < n; ++i)
    for (Eigen::Index k = 0; k < n; ++k)
      a(i, k) = r.dyadic(-16, 16);
  return a * a.transpose() + 0.5 * Eigen::MatrixXd::Identity(n, n);
}
static void normals(Rng &r, int reps) {
  for (int i = 0; i < reps; ++i) {
    const Eigen::Index n = r.range(1, 6);
    Eigen::MatrixXd cov = some_covariance(r, n);
    Eigen::VectorXd mean(n), z(n);
    for (auto &e : mean)
      e = r.dyadic();
    const double unit = r.coin() ? 1. : std::ldexp(1., r.range(-60, 40));
    mean *= unit;
    cov *= unit * unit;
    Gen gen(static_cast<unsigned>(r.range(1, 1000000)));
    Gen copy = gen;
    al::gaussian_fill(z, copy);
    Eigen::VectorXd out, next;
    if (r.chance(1, 3)) {
      mean.setZero();
      out = al::random_multivariate_normal(cov, gen);
      next = al::random_multivariate_normal(cov, gen);
    } else {
      out = al::random_multivariate_normal(mean, cov, gen);
      next = al::random_multivariate_normal(mean, cov, gen);
    }
    single({{"op", j("normal")}, {"mean", jv(mean)}, {"cov", jm(cov)}, {"z", jv(z)}, {"out", jv(out)}, {"next", jv(next)}});
  }
}
struct Recording { // a distribution that remembers what it gave
  std::uniform_real_distribution<double> u{0.1, 3.};
  double unit = 1.;
  std::shared_ptr<std::vector<double>> given = std::make_shared<std::vector<double>>();
  template <typename G> double operator()(G &g) {
    given->push_back(unit * u(g));
    return given->back();
  }
};
static void covariances(Rng &r, int reps) {
  for (int i = 0; i < reps; ++i) {
    const Eigen::Index k = r.range(1, 6);
    Gen gen(static_cast<unsigned>(r.range(1, 1000000)));
    Recording d;
    d.unit = r.coin() ? 1. : std::ldexp(1., r.range(-60, 60));
    const Eigen::MatrixXd out = al::random_covariance_matrix(k, d, gen);
    const std::vector<double> values = *d.given;
    const Eigen::MatrixXd next = al::random_covariance_matrix(k, d, gen);
    single({{"op", j("covariance")}, {"values", j(values)}, {"out", jm(out)}, {"next", jm(next)}});
  }
}
template <typename T> static J jentries(const Eigen::SparseMatrix<T> &m) {
  std::vector<J> o;
  for (int k = 0; k < m.outerSize(); ++k)
    for (typename Eigen::SparseMatrix<T>::InnerIterator it(m, k); it; ++it)
      o.push_back(arr({j(it.row()), j(it.col()), j(static_cast<double>(it.value()))}));
  return arr(o);
}
static void sparse(Rng &r, int reps) {
  for (int i = 0; i < reps; ++i) {
    const Eigen::Index rows = r.range(1, 7), cols = r.range(1, 7);
    const double fill = r.range(0, 8) * 0.125;
    Gen gen(static_cast<unsigned>(r.range(1, 1000000))), copy = gen;
    const bool limits = r.coin();
    const double lo = limits ? r.dyadic() : -1e6, hi = limits ? lo + 2. : 1e6;
    const auto make = [&](Gen &g) { return limits ? al::random_sparse_matrix<double>(rows, cols, fill, g, lo, hi) : al::random_sparse_matrix<double>(rows, cols, fill, g); };
    const auto m = make(gen), again = make(copy);
    single({{"op", j("sparse")}, {"rows", j(rows)}, {"cols", j(cols)}, {"shape", arr({j(m.rows()), j(m.cols())})}, {"fill", j(fill)}, {"min", j(lo)}, {"max", j(hi)},
            {"entries", jentries(m)}, {"again", jentries(again)}});
  }
}
int main(int argc, char **argv) {
  const auto args = parse_args(argc, argv);
  Rng r(args.seed);
  Gen gen(static_cast<unsigned>(args.seed + 11));
  for (const auto &x : read_inputs(args.in)) {
    const auto n = x["n"].get<std::size_t>();
    for (int rep = 0; rep < args.scale(2, 10); ++rep)
      if (x["kind"] == "positions") {
        label("positions");
        positions(gen, n, x["low"].get<std::size_t>(), x["high"].get<std::size_t>());
      } else {
        label("elements");
        elements(gen, n, x["xs"].get<std::vector<int>>());
      }
  }
  for (int i = 0; i < args.scale(60, 1000); ++i) {
    label("larger collections");
    const int c = r.range(1, 200), low = r.coin() ? 0 : r.range(0, 1000);
    positions(gen, static_cast<std::size_t>(r.range(0, c)), static_cast<std::size_t>(low), static_cast<std::size_t>(low + c - 1));
    std::vector<std::string> xs;
    for (int k = r.range(0, 60); k > 0; --k)
      xs.push_back("s" + std::to_string(r.range(0, 40)));
    elements(gen, static_cast<std::size_t>(r.range(0, static_cast<int>(xs.size()))), xs);
  }
  for (std::size_t c = 1; c <= 6; ++c)
    for (std::size_t n = 0; n <= c; ++n)
      for (std::size_t low : {0u, 4u}) {
        label("counts");
        counts(gen, n, low, low + c - 1, args.scale(4000, 40000), low == 0);
        counts(gen, n, low, low + c - 1, args.scale(4000, 40000), false);
      }
  counts(gen, 2, 0, 29, args.scale(50000, 500000), true);
  counts(gen, 28, 3, 32, args.scale(50000, 500000), false);
  for (int i = 0; i < args.scale(4, 40); ++i) {
    label("fill");
    fill(r, Eigen::MatrixXd(r.range(20, 30), r.range(20, 30)), r.dyadic(), 0.25 + std::abs(r.dyadic()), 0);
    fill(r, Eigen::MatrixXd(r.range(20, 30), r.range(20, 30)), 0., 1., 1);
    fill(r, Eigen::VectorXd(r.range(200, 600)), r.dyadic(), 0.25 + std::abs(r.dyadic()), 0);
    fill(r, Eigen::VectorXd(r.range(200, 600)), r.dyadic(), 0.25 + std::abs(r.dyadic()), 3);
    fill(r, Eigen::MatrixXd(r.range(20, 30), r.range(1, 30)), r.dyadic(), 0.25 + std::abs(r.dyadic()), 3);
  }
  fill(r, Eigen::MatrixXd(25, 30), 0., 1., 2);
  fill(r, Eigen::VectorXd(0), 0., 1., 1);
  fill(r, Eigen::VectorXd(1), 3., 0.5, 0);
  label("normals");
  normals(r, args.scale(150, 2000));
  label("covariances");
  covariances(r, args.scale(100, 1000));
  label("sparse");
  sparse(r, args.scale(150, 2000));
  label("far positions");
  for (int i = 0; i < args.scale(20, 100); ++i) {
    const std::size_t low = r.coin() ? 0 : static_cast<std::size_t>(r.range(0, 1000000)) << r.range(0, 40), wide = static_cast<std::size_t>(1) << r.range(20, 62);
    far_positions(gen, static_cast<std::size_t>(r.pick(std::vector<int>{0, 1, 5, 100, 200})), low, low + wide + static_cast<std::size_t>(r.range(0, 1000)));
  }
  return finish();
}
