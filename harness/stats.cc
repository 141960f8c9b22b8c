#define VERIF_EIGEN
#include "common.hpp"
#include "input.hpp"
#include <albatross/Core>
#include <albatross/Dataset>
#include <albatross/Indexing>
#include <albatross/Stats>
namespace al = albatross;
using namespace verif;
static const double inf = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN();

static void gamma(double a, double z) { single({{"op", j("gamma")}, {"a", j(a)}, {"z", j(z)}, {"out", j(al::incomplete_gamma(a, z))}}); }
static void chi(double x, double k, int form) {
  double out;
  std::string name;
  const bool whole = k >= 0 && k < 1e9 && k == std::floor(k);
  if (!whole || form == 0) {
    out = al::chi_squared_cdf(x, k);
    name = "double";
  } else if (form == 1) {
    out = al::chi_squared_cdf(x, static_cast<int>(k));
    name = "int";
  } else if (form == 2) {
    out = al::chi_squared_cdf(x, static_cast<std::size_t>(k));
    name = "size";
  } else {
    out = al::chi_squared_cdf(x, static_cast<long long>(k));
    name = "long";
  }
  single({{"op", j("chi")}, {"form", j(name)}, {"x", j(x)}, {"k", j(k)}, {"out", j(out)}});
}
static double any_degrees(Rng &r) {
  switch (r.range(0, 6)) {
  case 0: return r.range(1, 40);
  case 1: return r.range(1, 400) * 0.25;
  case 2: return 20. + r.dyadic(-64, 64, 1. / 1024.); // where the approximations meet
  case 3: return r.range(1, 700);
  case 4: return r.pick(std::vector<double>{19., 20., 21., 19.999999, std::nextafter(20., 0.), std::nextafter(20., 40.)});
  default: return r.range(1, 20);
  }
}
static double any_argument(Rng &r, double k) {
  switch (r.range(0, 7)) {
  case 0: return std::abs(k + std::sqrt(2 * k) * r.dyadic(-40, 80));
  case 1: return std::pow(10., -r.range(0, 14)) * r.range(1, 9);
  case 2: return k * r.range(1, 40) * 0.1;
  case 3: return std::pow(10., r.range(0, 300));
  default: return std::max(1e-3, k + std::sqrt(2 * k) * r.dyadic(-24, 48, 0.0625));
  }
}
int main(int argc, char **argv) {
  const auto args = parse_args(argc, argv);
  Rng r(args.seed);
  for (const auto &x : read_inputs(args.in)) {
    const auto num = [](const Json &v) { // rationals of the model are decimal texts
      return v.is_number() ? v.get<double>() : std::stod(v.get<std::string>());
    };
    if (x["kind"] == "uniform") {
      label("uniform");
      std::vector<double> xs;
      for (const auto &v : x["xs"])
        xs.push_back(num(v));
      const auto given = xs;
      const double out = al::uniform_ks_test(xs);
      single({{"op", j("uniform")}, {"xs", j(given)}, {"after", j(xs)}, {"out", j(out)}});
    } else {
      label("chi-squared from the model");
      chi(num(x["x"]), x["k"].get<int>(), r.range(0, 3));
    }
  }
  for (int i = 0; i < args.scale(900, 12000); ++i) {
    label("gamma");
    const double k = any_degrees(r), a = 0.5 * k;
    gamma(a, 0.5 * any_argument(r, k));
    label("chi");
    chi(any_argument(r, k), k, r.range(0, 3));
  }
  for (double a : {0., 1e-17, 0.5, 1., 2., 3.5, 9.999, 10., 10.5, 100., -1., -0.5, nan_})
    for (double z : {0., 1e-17, 2e-16, 1e-3, 1., 30., 745., 1e4, 1e300, inf, -0., nan_}) {
      label("ends of the domain");
      gamma(a, z);
      chi(z, a, 0);
      chi(z, std::floor(a), r.range(0, 3));
    }
  for (double x : {-1., -1e-300, -inf, nan_, -1e-17})
    for (double k : {0., 1., 7., 30.}) {
      chi(x, k, 0);
      chi(x, k, 1);
    }
  for (double a : {1000., 2500., 5000.})
    for (int i = 0; i < args.scale(3, 20); ++i) {
      label("large degrees of freedom");
      gamma(a, a + std::sqrt(a) * r.dyadic(-24, 48));
    }
  for (int i = 0; i < args.scale(40, 400); ++i) {
    label("increasing");
    const double k = any_degrees(r);
    std::vector<double> xs, out;
    double x = 0;
    const double dx = k * 0.01 * r.range(1, 10);
    for (int m = 0; m < 60; ++m) {
      xs.push_back(x);
      out.push_back(al::chi_squared_cdf(x, k));
      x += dx;
    }
    single({{"op", j("increasing")}, {"k", j(k)}, {"xs", j(xs)}, {"out", j(out)}});
  }
  for (int i = 0; i < args.scale(150, 2000); ++i) {
    label("deviations");
    const Eigen::Index n = r.range(0, 6);
    Eigen::MatrixXd a(n, n);
    Eigen::VectorXd d(n);
    for (Eigen::Index p = 0; p < n; ++p) {
      d[p] = r.dyadic(-32, 32);
      for (Eigen::Index q = 0; q < n; ++q)
        a(p, q) = r.dyadic(-16, 16);
    }
    const Eigen::MatrixXd cov = a * a.transpose() + Eigen::MatrixXd::Identity(n, n);
    single({{"op", j("distance")}, {"d", jv(d)}, {"cov", jm(cov)}, {"out", j(al::chi_squared_cdf(d, cov))}});
    const double dev = r.dyadic(), var = 0.125 + std::abs(r.dyadic());
    const std::size_t k = static_cast<std::size_t>(r.range(1, 30));
    single({{"op", j("deviation")}, {"d", j(dev)}, {"variance", j(var)}, {"k", j(k)}, {"out", j(al::chi_squared_cdf(dev, var, k))}});
    const double v = std::pow(10., r.range(-6, 6)) * (0.125 + std::abs(r.dyadic())), e = std::sqrt(v) * r.dyadic(-40, 40);
    single({{"op", j("pdf")}, {"d", j(e)}, {"v", j(v)}, {"pdf", j(al::gaussian::pdf(e, v))}, {"log_pdf", j(al::gaussian::log_pdf(e, v))}});
  }
  for (int i = 0; i < args.scale(150, 2000); ++i) {
    label("uniform samples");
    std::vector<double> xs(static_cast<std::size_t>(r.range(0, 25)));
    const int kind = r.range(0, 3);
    for (auto &x : xs)
      x = kind == 0 ? r.range(0, 4) * 0.25 : kind == 1 ? r.range(0, 1000000) / 1e6 : kind == 2 ? r.range(0, 1000) / 1e4 : 1. - r.range(0, 100) / 1e3;
    const auto given = xs;
    const double out = al::uniform_ks_test(xs);
    single({{"op", j("uniform")}, {"xs", j(given)}, {"after", j(xs)}, {"out", j(out)}});
  }
  return finish();
}
