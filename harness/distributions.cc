#define VERIF_EIGEN
#include <albatross/Indexing>
#include "common.hpp"
#include "input.hpp"
using namespace verif;
namespace al = albatross;
using Marginal = al::MarginalDistribution;
using Joint = al::JointDistribution;

J jd(const Marginal &d) { return obj({{"mean", jv(d.mean)}, {"cov", jm(d.covariance.toDenseMatrix())}}); }
J jd(const Joint &d) { return obj({{"mean", jv(d.mean)}, {"cov", jm(d.covariance)}}); }

Eigen::VectorXd vec(int n, Rng &rng) {
  Eigen::VectorXd v(n);
  for (int i = 0; i < n; ++i)
    v[i] = rng.dyadic();
  return v;
}
Eigen::MatrixXd mat(int r, int c, Rng &rng) {
  Eigen::MatrixXd m(r, c);
  for (int i = 0; i < r; ++i)
    for (int k = 0; k < c; ++k)
      m(i, k) = rng.chance(1, 4) ? 0. : rng.dyadic(-16, 16);
  return m;
}
Marginal random_marginal(int n, Rng &rng) {
  if (rng.chance(1, 8))
    return Marginal(vec(n, rng));
  if (n == 1 && rng.coin())
    return Marginal(rng.dyadic(), rng.dyadic(0, 64));
  Eigen::VectorXd v = vec(n, rng).cwiseAbs();
  if (rng.coin())
    return Marginal(vec(n, rng), v);
  return Marginal(vec(n, rng), al::DiagonalMatrixXd(v));
}
Joint random_joint(int n, Rng &rng) {
  if (n == 1 && rng.coin())
    return Joint(rng.dyadic(), rng.dyadic(0, 64));
  const Eigen::MatrixXd L = mat(n, rng.chance(1, 4) ? rng.range(1, n) : n + 1, rng); // sometimes singular
  return Joint(vec(n, rng), L * L.transpose());
}
template <typename D> struct Kind;
template <> struct Kind<Marginal> {
  static const char *name() { return "marginal"; }
  static Marginal random(int n, Rng &rng) { return random_marginal(n, rng); }
};
template <> struct Kind<Joint> {
  static const char *name() { return "joint"; }
  static Joint random(int n, Rng &rng) { return random_joint(n, rng); }
};

template <typename D> void start(const D &d) { step({{"op", j("start")}, {"out", jd(d)}}); }

std::vector<std::vector<double>> numbers(const std::string &text, bool indexed) {
  std::vector<std::vector<double>> out;
  std::istringstream is(text);
  std::string line;
  while (std::getline(is, line)) {
    if (indexed) {
      const auto p = line.find("+/-");
      if (p != std::string::npos)
        line.replace(p, 3, " ");
    }
    std::istringstream ls(line);
    std::vector<double> v;
    for (std::string t; ls >> t;)
      v.push_back(std::stod(t));
    out.push_back(v);
  }
  return out;
}

template <typename D> void print(const D &d) {
  std::ostringstream os, other;
  std::streambuf *old = std::cout.rdbuf(other.rdbuf());
  os << d;
  std::cout.rdbuf(old);
  step({{"op", j("printed")}, {"kind", j(Kind<D>::name())}, {"elsewhere", j(other.str())}, {"lines", j(numbers(os.str(), std::is_same<D, Marginal>::value))}});
}

template <typename D> void compare(const D &d, Rng &rng) {
  const int n = static_cast<int>(d.size());
  auto cmp = [&](const D &o) {
    step({{"op", j("equal")}, {"kind", j(Kind<D>::name())}, {"arg", jd(o)}, {"out", j(d == o)}});
    if (n > 0) {
      step({{"op", j("approx")}, {"kind", j(Kind<D>::name())}, {"eps", j("0.001")}, {"arg", jd(o)}, {"out", j(d.approximately_equal(o))}});
      const double eps = rng.coin() ? 1e-6 : 0.1;
      step({{"op", j("approx")}, {"kind", j(Kind<D>::name())}, {"eps", j(eps)}, {"arg", jd(o)}, {"out", j(d.approximately_equal(o, eps))}});
    }
  };
  cmp(d);
  if (n == 0)
    return;
  const auto i = static_cast<Eigen::Index>(rng.range(0, n - 1));
  for (double change : {1e-9, 1e-4, 10.}) {
    D a = d, b = d;
    a.mean[i] += change * (1 + std::abs(a.mean[i]));
    b.covariance.diagonal()[i] += change * (1 + std::abs(b.covariance.diagonal()[i]));
    cmp(a);
    cmp(b);
  }
  cmp(Kind<D>::random(n, rng));
}

void element_ops(const Marginal &d, Rng &rng) {
  step({{"op", j("size")}, {"out", j(d.size())}});
  if (d.size() == 0)
    return;
  const int i = rng.range(0, static_cast<int>(d.size()) - 1);
  const auto e = d[static_cast<std::size_t>(i)];
  step({{"op", j("element")}, {"i", j(i)}, {"mean", jv(e.mean)}, {"cov", jm(e.covariance.toDenseMatrix())}});
  step({{"op", j("diagonal")}, {"i", j(i)}, {"out", j(d.get_diagonal(i))}});
}
void element_ops(const Joint &d, Rng &rng) {
  step({{"op", j("size")}, {"out", j(d.size())}});
  if (d.size() == 0)
    return;
  const int i = rng.range(0, static_cast<int>(d.size()) - 1);
  const auto e = d[static_cast<std::size_t>(i)];
  step({{"op", j("element")}, {"i", j(i)}, {"mean", jv(e.mean)}, {"cov", jm(e.covariance.toDenseMatrix())}});
  step({{"op", j("diagonal")}, {"i", j(i)}, {"out", j(d.get_diagonal(i))}});
}

std::vector<int> random_indices(int n, Rng &rng) {
  std::vector<int> idx;
  if (n > 0)
    for (int m = n > 12 ? rng.range(0, 2 * n) : rng.range(0, 5); m-- > 0;)
      idx.push_back(rng.range(0, n - 1));
  return idx;
}
template <typename D> D do_subset(const D &d, const std::vector<int> &idx, Rng &rng) {
  D out = d;
  if (rng.coin())
    out = rng.coin() ? d.subset(idx) : al::subset(d, idx);
  else {
    std::vector<std::size_t> s(idx.begin(), idx.end());
    out = rng.coin() ? d.subset(s) : al::subset(d, s);
  }
  step({{"op", j("subset")}, {"kind", j(Kind<D>::name())}, {"idx", j(idx)}, {"out", jd(out)}, {"left", jd(d)}});
  return out;
}
template <typename D> D do_scale(const D &d, double s) {
  const D out = d * s;
  step({{"op", j("scale")}, {"kind", j(Kind<D>::name())}, {"arg", j(s)}, {"out", jd(out)}, {"left", jd(d)}});
  return out;
}
template <typename A, typename B> A do_sum(const A &a, const B &b, bool plus) {
  const A out = plus ? a + b : a - b;
  step({{"op", j(plus ? "plus" : "minus")}, {"kind", j(std::string(Kind<A>::name()) + " and " + Kind<B>::name())}, {"arg", jd(b)}, {"out", jd(out)}, {"left", jd(a)}, {"right", jd(b)}});
  return out;
}
template <typename D> Joint do_linear(const D &d, const Eigen::MatrixXd &A, int how, bool to_joint, Marginal *m) {
  const Eigen::SparseMatrix<double> S = A.sparseView();
  const char *kinds[] = {"dense", "sparse", "dense conversion", "sparse conversion"};
  Joint jo;
  if (to_joint)
    switch (how) {
    case 0: jo = (A * d).joint(); break;
    case 1: jo = (S * d).joint(); break;
    case 2: jo = A * d; break;
    default: jo = S * d;
    }
  else
    switch (how) {
    case 0: *m = (A * d).marginal(); break;
    case 1: *m = (S * d).marginal(); break;
    case 2: *m = A * d; break;
    default: *m = S * d;
    }
  step({{"op", j("linear")}, {"kind", j(std::string(kinds[how]) + " times " + Kind<D>::name())}, {"to", j(to_joint ? "joint" : "marginal")}, {"A", jm(A)}, {"out", to_joint ? jd(jo) : jd(*m)}, {"left", jd(d)}});
  return jo;
}

template <typename D> void all_linear(const D &d, const Eigen::MatrixXd &A) {
  for (int how = 0; how < 4; ++how)
    for (bool to_joint : {false, true}) {
      start(d);
      Marginal m;
      do_linear(d, A, how, to_joint, &m);
    }
  end_behaviour();
}

int main(int argc, char **argv) {
  Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  int n_in = 0;
  for (const auto &in : read_inputs(args.in)) {
    if (!args.thorough() && ++n_in % 4)
      continue;
    const auto a = in["A"].get<std::vector<std::vector<double>>>();
    const auto c = in["cov"].get<std::vector<std::vector<double>>>();
    const auto m = in["mean"].get<std::vector<double>>();
    Eigen::MatrixXd A(static_cast<Eigen::Index>(a.size()), 2), C(2, 2);
    Eigen::VectorXd mean(2);
    for (Eigen::Index i = 0; i < A.rows(); ++i)
      for (Eigen::Index k = 0; k < 2; ++k)
        A(i, k) = a[static_cast<std::size_t>(i)][static_cast<std::size_t>(k)];
    for (Eigen::Index i = 0; i < 2; ++i) {
      mean[i] = m[static_cast<std::size_t>(i)];
      for (Eigen::Index k = 0; k < 2; ++k)
        C(i, k) = c[static_cast<std::size_t>(i)][static_cast<std::size_t>(k)];
    }
    label("linear " + in.dump().substr(0, 200));
    all_linear(Joint(mean, C), A);
    all_linear(Marginal(mean, Eigen::VectorXd(C.diagonal())), A);
  }
  for (int k = 0; k < args.scale(400, 6000); ++k) {
    label("marginal history " + std::to_string(k));
    const bool large = k % 40 == 13;
    const int most = large ? 70 : 12, part = large ? 25 : 3; // sizes the history may grow to
    Marginal m = random_marginal(large ? rng.range(30, 60) : rng.range(k % 10 ? 1 : 0, 6), rng);
    start(m);
    for (int ops = rng.range(1, 5); ops-- > 0;) {
      const int n = static_cast<int>(m.size());
      switch (rng.range(0, 8)) {
      case 0: m = do_sum(m, random_marginal(n, rng), true); break;
      case 1: m = do_sum(m, random_marginal(n, rng), false); break;
      case 2: m = do_scale(m, rng.dyadic(-24, 24)); break;
      case 3: m = do_subset(m, random_indices(n, rng), rng); break;
      case 4: {
        const auto idx = random_indices(n, rng);
        const Marginal from = random_marginal(static_cast<int>(idx.size()), rng);
        if (idx.empty())
          break;
        if (rng.coin())
          m.set_subset(from, idx);
        else
          al::set_subset(from, idx, &m);
        step({{"op", j("set_subset")}, {"idx", j(idx)}, {"arg", jd(from)}, {"out", jd(m)}});
        break;
      }
      case 5: {
        const Marginal o = random_marginal(rng.range(0, part), rng);
        const Marginal c = al::concatenate_marginals(m, o);
        step({{"op", j("concatenate")}, {"kind", j("two")}, {"parts", arr({jd(m), jd(o)})}, {"out", jd(c)}});
        m = c;
        break;
      }
      case 6: {
        std::vector<Marginal> parts;
        std::vector<J> jp;
        for (int p = rng.range(0, 4); p-- > 0;) {
          parts.push_back(rng.coin() ? m : random_marginal(rng.range(0, part), rng));
          jp.push_back(jd(parts.back()));
        }
        m = al::concatenate_marginals(parts);
        step({{"op", j("concatenate")}, {"kind", j("list")}, {"parts", arr(jp)}, {"out", jd(m)}});
        break;
      }
      case 7:
        if (n > 0 && (large || n < 9)) {
          Marginal out;
          do_linear(m, mat(rng.range(1, large ? 40 : 4), n, rng), rng.range(0, 3), false, &out);
          m = out;
        }
        break;
      default: element_ops(m, rng);
      }
      if (static_cast<int>(m.size()) > most)
        m = do_subset(m, {0, 3, 5}, rng);
    }
    compare(m, rng);
    if (m.size() > 0)
      print(m);
    end_behaviour();

    label("joint history " + std::to_string(k));
    Joint q = random_joint(large ? rng.range(20, 45) : rng.range(1, 6), rng);
    start(q);
    for (int ops = rng.range(1, 5); ops-- > 0;) {
      const int n = static_cast<int>(q.size());
      switch (rng.range(0, 8)) {
      case 0: q = do_sum(q, random_joint(n, rng), true); break;
      case 1: q = do_sum(q, random_joint(n, rng), false); break;
      case 2: q = do_sum(q, random_marginal(n, rng), true); break;
      case 3: q = do_sum(q, random_marginal(n, rng), false); break;
      case 4: q = do_scale(q, rng.dyadic(-24, 24)); break;
      case 5: {
        auto idx = random_indices(n, rng);
        if (idx.empty())
          idx.push_back(n - 1);
        q = do_subset(q, idx, rng);
        break;
      }
      case 6:
        q = do_linear(q, mat(rng.range(1, large ? 30 : 4), n, rng), rng.range(0, 3), true, nullptr);
        break;
      case 7: {
        Marginal out;
        do_linear(q, mat(rng.range(1, large ? 30 : 4), n, rng), rng.range(0, 3), false, &out);
        start(q);
        break;
      }
      default: element_ops(q, rng);
      }
    }
    compare(q, rng);
    print(q);
    step({{"op", j("marginal")}, {"out", jd(q.marginal())}});
    end_behaviour();
  }
  return finish();
}
