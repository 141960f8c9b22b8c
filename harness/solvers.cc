#define VERIF_EIGEN
#include <albatross/Core>
#include <albatross/Dataset>
#include <albatross/Indexing>
#include <albatross/GP>
#include <albatross/src/utils/eigen_utils.hpp>
#include <albatross/linalg/Block>
#include <albatross/linalg/Utils>
#include "common.hpp"
#include "input.hpp"
namespace al = albatross;
using namespace verif;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using Mats = std::vector<MatrixXd>;

// now and then everything is far larger
static bool g_large = false;
static int size(Rng &rng, int lo, int usual, int least, int large) { return g_large ? rng.range(least, large) : rng.range(lo, usual); }

static MatrixXd rnd(Eigen::Index r, Eigen::Index c, Rng &rng, int m = 6) {
  return MatrixXd::NullaryExpr(r, c, [&]() { return rng.dyadic(-m, m, 0.5); });
}
static MatrixXd spd(Eigen::Index n, Rng &rng, bool wild = true) {
  const MatrixXd a = rnd(n, n, rng, 4);
  MatrixXd out = a * a.transpose() + MatrixXd::Identity(n, n) * 2.;
  if (wild && rng.chance(1, 4)) // wildly different scales
    for (Eigen::Index i = 0; i < n; ++i) {
      const double s = std::ldexp(1., rng.range(-2, 2));
      out.row(i) *= s;
      out.col(i) *= s;
    }
  return out;
}
// units: powers of two that matrices and right hand sides are multiplied with
struct Units {
  double matrix = 1., rhs = 1.;
};
static J jms(const Mats &ms) {
  std::vector<J> o;
  for (const auto &m : ms)
    o.push_back(jm(m));
  return arr(o);
}
static std::shared_ptr<ThreadPool> pool(Rng &rng) { return std::make_shared<ThreadPool>(static_cast<std::size_t>(rng.range(1, 4))); }
static void same(const char *what, const MatrixXd &a, const MatrixXd &b) {
  step({{"op", j("same")}, {"what", j(what)}, {"a", jm(a)}, {"b", jm(b)}});
}
static void solved(const char *how, const MatrixXd &rhs, const MatrixXd &out) {
  step({{"op", j("solve")}, {"how", j(how)}, {"rhs", jm(rhs)}, {"out", jm(out)}});
}
static Eigen::SparseMatrix<double> sparse(const MatrixXd &m, Rng &rng) {
  std::vector<Eigen::Triplet<double>> t;
  for (Eigen::Index i = 0; i < m.rows(); ++i)
    for (Eigen::Index k = 0; k < m.cols(); ++k)
      if (m(i, k) != 0. || rng.chance(1, 5))
        t.emplace_back(i, k, m(i, k));
  rng.shuffle(t);
  Eigen::SparseMatrix<double> s(m.rows(), m.cols());
  s.setFromTriplets(t.begin(), t.end());
  return s;
}

static void factored(const MatrixXd &A, bool definite, Rng &rng, double unit = 1.) {
  step({{"op", j("system")}, {"kind", j("dense")}, {"A", jm(A)}});
  Eigen::SerializableLDLT f(A);
  if (rng.coin())
    f = Eigen::SerializableLDLT(A.ldlt());
  const auto n = A.rows();
  const MatrixXd I = MatrixXd::Identity(n, n), rhs = unit * rnd(n, size(rng, 1, 3, 31, 33), rng);
  step({{"op", j("shape")}, {"rows", j(f.rows())}, {"cols", j(f.cols())}});
  step({{"op", j("norm")}, {"out", j(f.l1_norm())}});
  step({{"op", j("sqrt")}, {"S", jm(f.sqrt_product(I))}});
  step({{"op", j("sqrt_product")}, {"rhs", jm(rhs)}, {"out", jm(f.sqrt_product(rhs))}});
  const VectorXd one = rhs.col(0);
  step({{"op", j("sqrt_product")}, {"rhs", jm(one)}, {"out", jm(f.sqrt_product(one))}});
  step({{"op", j("sqrt_transpose")}, {"out", jm(f.sqrt_transpose())}});
  if (A.isDiagonal())
    step({{"op", j("pseudo")}, {"out", jm(f.sqrt_solve(I))}});
  if (!definite)
    return;
  step({{"op", j("positive")}, {"expect", j(true)}, {"out", j(f.is_positive_definite())}});
  solved("dense", rhs, f.solve(rhs));
  step({{"op", j("sqrt_solve")}, {"rhs", jm(rhs)}, {"out", jm(f.sqrt_solve(rhs))}});
  step({{"op", j("sqrt_solve")}, {"rhs", jm(one)}, {"out", jm(f.sqrt_solve(one))}});
  step({{"op", j("sqrt_transpose_solve")}, {"rhs", jm(rhs)}, {"out", jm(f.sqrt_transpose_solve(rhs))}});
  step({{"op", j("log_det")}, {"out", j(f.log_determinant())}});
  step({{"op", j("rcond")}, {"out", j(f.rcond())}});
  step({{"op", j("inverse_diagonal")}, {"out", jv(f.inverse_diagonal())}});
  std::vector<std::vector<std::size_t>> blocks;
  const int k = size(rng, 0, 3, 9, 12);
  for (int b = 0; b < k; ++b) {
    std::vector<std::size_t> idx;
    for (int i = rng.range(1, static_cast<int>(n)); i > 0; --i)
      idx.push_back(static_cast<std::size_t>(rng.range(0, static_cast<int>(n) - 1))); // any order, may repeat
    blocks.push_back(idx);
  }
  const auto inv = f.inverse_blocks(blocks);
  step({{"op", j("inverse_blocks")}, {"idx", j(blocks)}, {"out", jms(inv)}});
  const auto p = pool(rng);
  const auto pooled = f.inverse_blocks(blocks, p.get());
  step({{"op", j("same")}, {"what", j("inverse blocks")}, {"a", jms(inv)}, {"b", jms(pooled)}});
}
static void block_diagonal(const Mats &blocks, Rng &rng, const Units &u = Units()) {
  al::BlockDiagonal b;
  b.blocks = blocks;
  step({{"op", j("system")}, {"kind", j("blocks")}, {"blocks", jms(blocks)}});
  step({{"op", j("shape")}, {"rows", j(b.rows())}, {"cols", j(b.cols())}});
  step({{"op", j("dense")}, {"out", jm(b.toDense())}});
  step({{"op", j("diagonal")}, {"out", jv(b.diagonal())}});
  const auto n = b.rows();
  const MatrixXd rhs = u.rhs * rnd(n, size(rng, 1, 3, 31, 33), rng);
  const VectorXd one = rhs.col(0);
  step({{"op", j("product")}, {"rhs", jm(rhs)}, {"out", jm(b * rhs)}});
  step({{"op", j("product")}, {"rhs", jm(one)}, {"out", jm(MatrixXd(b * one))}});
  al::BlockDiagonal other;
  for (const auto &x : blocks)
    other.blocks.push_back(u.matrix * rnd(x.rows(), x.cols(), rng));
  step({{"op", j("minus")}, {"rhs", jms(other.blocks)}, {"out", jms((b - other).blocks)}});
  const auto f = b.ldlt();
  step({{"op", j("shape")}, {"rows", j(f.rows())}, {"cols", j(f.cols())}});
  step({{"op", j("log_det")}, {"out", j(f.log_determinant())}});
  step({{"op", j("rcond")}, {"out", j(f.rcond())}});
  const MatrixXd s = f.solve(rhs), w = f.sqrt_solve(rhs);
  auto whitened = [](const char *how, const MatrixXd &r, const MatrixXd &o) {
    step({{"op", j("whiten")}, {"how", j(how)}, {"rhs", jm(r)}, {"out", jm(o)}});
  };
  solved("block diagonal", rhs, s);
  whitened("block diagonal", rhs, w);
  solved("vector", one, f.solve(one));
  whitened("vector", one, f.sqrt_solve(one));
  const MatrixXd wide = u.rhs * rnd(n + 1, rhs.cols() + 2, rng);
  const MatrixXd part = wide.block(1, 1, n, rhs.cols());
  solved("part of a matrix", part, f.solve(wide.block(1, 1, n, rhs.cols())));
  solved("expression", part, f.solve(2. * part - part));
  for (int i = 0; i < 2; ++i) {
    const auto p = i ? pool(rng) : nullptr;
    same("block diagonal solve", s, f.solve(rhs, p.get()));
    same("block diagonal square root solve", w, f.sqrt_solve(rhs, p.get()));
    solved("pool", one, MatrixXd(f.solve(one, p.get())));
    whitened("pool", one, MatrixXd(f.sqrt_solve(one, p.get())));
  }
}
static void rectangular(Rng &rng) {
  al::BlockDiagonal b, other;
  for (int i = size(rng, 1, 3, 9, 12); i > 0; --i) {
    b.blocks.push_back(rnd(size(rng, 1, 3, 1, 14), size(rng, 1, 3, 1, 14), rng));
    other.blocks.push_back(rnd(b.blocks.back().rows(), b.blocks.back().cols(), rng));
  }
  step({{"op", j("system")}, {"kind", j("blocks")}, {"blocks", jms(b.blocks)}});
  step({{"op", j("shape")}, {"rows", j(b.rows())}, {"cols", j(b.cols())}});
  step({{"op", j("dense")}, {"out", jm(b.toDense())}});
  const MatrixXd rhs = rnd(b.cols(), size(rng, 1, 3, 31, 33), rng);
  step({{"op", j("product")}, {"rhs", jm(rhs)}, {"out", jm(b * rhs)}});
  step({{"op", j("minus")}, {"rhs", jms(other.blocks)}, {"out", jms((b - other).blocks)}});
  end_behaviour();
}
// a block symmetric solver around any other solver, grown by further rows
template <int Left, typename Solver> void grow(const Solver &s, const MatrixXd &A, Rng &rng, const Units &u = Units()) {
  const auto n = A.rows();
  const Eigen::Index m = size(rng, 1, 3, 9, 14);
  const MatrixXd B = u.matrix * rnd(n, m, rng, 2);
  const MatrixXd schur = u.matrix * spd(m, rng, false);
  const MatrixXd C = schur + B.transpose() * A.ldlt().solve(B);
  al::BlockSymmetric<Solver> bs(s, B, C);
  switch (rng.range(0, 3)) {
  case 0: bs = al::BlockSymmetric<Solver>(s, B, Eigen::SerializableLDLT(schur)); break;
  case 1: bs = al::build_block_symmetric(s, B, C); break;
  case 2: bs = al::build_block_symmetric(s, B, MatrixXd(schur).ldlt()); break;
  }
  step({{"op", j("grown")}, {"B", jm(B)}, {"C", jm(C)}});
  step({{"op", j("shape")}, {"rows", j(bs.rows())}, {"cols", j(bs.cols())}});
  MatrixXd rhs = u.rhs * rnd(n + m, size(rng, 1, 3, 1, 20), rng);
  if (rng.chance(1, 4)) // only one part
    (rng.coin() ? rhs.topRows(n) : rhs.bottomRows(m)).setZero();
  const VectorXd one = rhs.col(0);
  solved("block symmetric", rhs, bs.solve(rhs));
  solved("block symmetric vector", one, bs.solve(one));
  if constexpr (Left > 1) {
    MatrixXd all(n + m, n + m);
    all << A, B, B.transpose(), C;
    grow<Left - 1>(bs, all, rng, u);
  }
}
static void symmetric(Rng &rng) {
  const Eigen::Index n = size(rng, 1, 4, 12, 24);
  const MatrixXd A = spd(n, rng, false);
  const MatrixXd rhs = rnd(n, size(rng, 1, 3, 1, 33), rng);
  step({{"op", j("system")}, {"kind", j("dense")}, {"A", jm(A)}});
  grow<3>(Eigen::SerializableLDLT(A), A, rng);
  end_behaviour();
  // a solver that is given an inverse
  const MatrixXd inv = spd(n, rng, false);
  step({{"op", j("system")}, {"kind", j("direct")}, {"inverse", jm(inv)}});
  const al::DirectInverse direct(inv);
  step({{"op", j("shape")}, {"rows", j(direct.rows())}, {"cols", j(direct.cols())}});
  solved("direct inverse", rhs, direct.solve(rhs));
  grow<2>(direct, inv.inverse(), rng);
  end_behaviour();
  // and one that explains part of a covariance; the inner matrix may be singular
  const MatrixXd half = rnd(n, rng.range(1, static_cast<int>(n)), rng);
  const bool singular = rng.coin();
  const MatrixXd inner = singular ? MatrixXd(half * half.transpose()) : spd(n, rng, false);
  al::ExplainedCovariance e(A, inner);
  if (rng.coin())
    e = al::ExplainedCovariance(Eigen::SerializableLDLT(A), inner);
  step({{"op", j("system")}, {"kind", j("explained")}, {"outer", jm(A)}, {"inner", jm(inner)}});
  step({{"op", j("shape")}, {"rows", j(e.rows())}, {"cols", j(e.cols())}});
  solved("explained covariance", rhs, e.solve(rhs));
  if (!singular)
    grow<1>(e, MatrixXd(A * inner.ldlt().solve(A)), rng);
  end_behaviour();
}
template <typename P> J jperm(const P &p) {
  std::vector<int> o;
  for (Eigen::Index i = 0; i < p.indices().size(); ++i)
    o.push_back(static_cast<int>(p.indices()[i]));
  return j(o);
}
static void qrs(Rng &rng) {
  const Eigen::Index n = size(rng, 1, 5, 20, 40), m = n + size(rng, 0, 4, 0, 40);
  MatrixXd A = rnd(m, n, rng, 8);
  for (Eigen::Index i = 0; i < n; ++i)
    A(i, i) += g_large ? 40. : 10.;
  const MatrixXd rhs = rnd(n, size(rng, 1, 3, 1, 33), rng);
  const VectorXd one = rhs.col(0);
  auto check = [&](const char *kind, const auto &qr) {
    const MatrixXd R = al::get_R(qr);
    const auto P = al::get_P(qr);
    step({{"op", j("qr")}, {"kind", j(kind)}, {"A", jm(A)}, {"R", jm(R)}, {"P", jperm(P)}});
    auto root = [&](const char *how, const MatrixXd &r, const MatrixXd &o) {
      step({{"op", j("qr_sqrt_solve")}, {"how", j(how)}, {"rhs", jm(r)}, {"out", jm(o)}});
    };
    root(kind, rhs, al::sqrt_solve(qr, rhs));
    root("vector", one, al::sqrt_solve(qr, one));
    root("R and P", rhs, al::sqrt_solve(R, P, rhs));
  };
  check("dense", A.colPivHouseholderQr());
  MatrixXd loose = A;
  if (rng.coin())
    for (Eigen::Index i = 0; i < m; ++i)
      for (Eigen::Index k = 0; k < n; ++k)
        if (i != k && rng.coin())
          loose(i, k) = 0.;
  A = loose;
  const auto p = pool(rng);
  const auto s = sparse(A, rng);
  const auto qr = al::SPQR_create(s, rng.coin() ? p.get() : nullptr);
  check("sparse", *qr);
  const VectorXd b = rnd(m, 1, rng).col(0);
  step({{"op", j("qr_solve")}, {"rhs", jm(b)}, {"out", jm(MatrixXd(VectorXd(qr->solve(b))))}});
  end_behaviour();
}
static void pivots(Rng &rng) {
  const Eigen::Index r = rng.size(1, 7, 60), c = rng.size(1, 7, 60), min = rng.range(0, 7);
  MatrixXd m = rng.chance(1, 6) ? MatrixXd(MatrixXd::Zero(r, c)) : rnd(r, c, rng, 20);
  const double coef = rng.dyadic(1, 64, 0.25);
  std::vector<double> norms;
  for (Eigen::Index i = 0; i < c; ++i)
    norms.push_back(m.col(i).norm());
  single({{"op", j("pivot")}, {"rows", j(r)}, {"cols", j(c)}, {"min", j(min)}, {"coef", j(coef)}, {"norms", j(norms)}, {"eps", j(std::numeric_limits<double>::epsilon())},
          {"out", j(al::SPQR_pivot_threshold(m, min, coef))}});
}
// an orthogonal matrix and eigen values
static std::pair<MatrixXd, VectorXd> eigen_system(Eigen::Index n, bool zeros, Rng &rng) {
  MatrixXd Q = MatrixXd::Identity(n, n);
  for (int i = 0; i < 3; ++i) {
    VectorXd v = rnd(n, 1, rng, 3).col(0);
    v[0] += 0.25;
    Q = Q * (MatrixXd::Identity(n, n) - 2. * v * v.transpose() / v.squaredNorm());
  }
  VectorXd d(n);
  for (Eigen::Index i = 0; i < n; ++i)
    d[i] = (zeros && rng.chance(1, 3)) ? 0. : 0.5 * double(i) + rng.dyadic(1, 3, 0.125);
  return {Q, d};
}
static void truncated(Rng &rng) {
  const Eigen::Index n = size(rng, 1, 4, 15, 24);
  const auto s = eigen_system(n, true, rng);
  const MatrixXd A = s.first * s.second.asDiagonal() * s.first.transpose();
  const Eigen::SelfAdjointEigenSolver<MatrixXd> ev(A);
  const MatrixXd rhs = rnd(n, size(rng, 1, 3, 1, 33), rng);
  const VectorXd one = rhs.col(0);
  auto log = [&](double thr, const MatrixXd &r, const MatrixXd &o) {
    step({{"op", j("truncated")}, {"Q", jm(s.first)}, {"d", jv(s.second)}, {"threshold", j(thr)}, {"rhs", jm(r)}, {"out", jm(o)}});
  };
  log(1e-8, rhs, al::truncated_psd_solve(ev, rhs));
  log(1e-8, one, al::truncated_psd_solve(ev, one));
  const double thr = 0.0625 + 0.5 * rng.range(0, 3); // between the possible eigen values
  log(thr, rhs, al::truncated_psd_solve(ev, rhs, thr));
  end_behaviour();
}
static void directions(Rng &rng) {
  const Eigen::Index n = size(rng, 1, 4, 10, 24);
  const auto s = eigen_system(n, false, rng);
  const MatrixXd A = s.first * s.second.asDiagonal() * s.first.transpose();
  std::vector<std::string> names;
  for (Eigen::Index i = 0; i < n; ++i)
    names.push_back(std::to_string(i));
  const int count = rng.range(1, static_cast<int>(n));
  const bool ascending = rng.coin();
  const double thr = rng.coin() ? 1e-3 : 0.125;
  std::ostringstream os;
  if (ascending)
    al::print_small_eigen_directions(A, names, static_cast<std::size_t>(count), thr, &os);
  else
    al::print_large_eigen_directions(A, names, static_cast<std::size_t>(count), thr, &os);
  std::istringstream is(os.str());
  std::string line, word;
  double lo = NAN, hi = NAN, value = NAN;
  std::vector<J> out;
  std::vector<std::pair<double, int>> coefs;
  bool open = false;
  auto flush = [&]() {
    if (open)
      out.push_back(obj({{"value", j(value)}, {"coefs", j(coefs)}}));
    coefs.clear();
  };
  while (std::getline(is, line)) {
    std::istringstream ls(line);
    if (line.rfind("MIN:", 0) == 0)
      ls >> word >> lo;
    else if (line.rfind("MAX:", 0) == 0)
      ls >> word >> hi;
    else if (line.rfind("eigen value:", 0) == 0) {
      flush();
      open = true;
      ls >> word >> word >> value;
    } else {
      double c = NAN;
      int f = -1;
      ls >> c >> f;
      coefs.push_back({c, f});
    }
  }
  flush();
  single({{"op", j("directions")}, {"Q", jm(s.first)}, {"d", jv(s.second)}, {"count", j(count)}, {"ascending", j(ascending)}, {"threshold", j(thr)}, {"min", j(lo)}, {"max", j(hi)}, {"out", arr(out)}});
}
static void block_utils(Rng &rng) {
  const int k = size(rng, 1, 4, 9, 12);
  const Eigen::Index a = size(rng, 1, 3, 1, 16), b = size(rng, 1, 3, 1, 16);
  Mats xs, ys, inner, sq;
  std::vector<int> keys;
  al::Grouped<int, MatrixXd> gx, gy, gi, gsame, grhs;
  al::Grouped<int, Eigen::SerializableLDLT> gs;
  Mats same_size, rhs;
  std::set<int> ks;
  while (static_cast<int>(ks.size()) < k)
    ks.insert(rng.range(-9, 9));
  for (int key : ks) {
    keys.push_back(key);
    const Eigen::Index c = size(rng, 1, 3, 1, 14);
    xs.push_back(rnd(a, c, rng));
    ys.push_back(rnd(c, b, rng));
    inner.push_back(rnd(a, b, rng));
    same_size.push_back(rnd(a, b, rng));
    sq.push_back(spd(c, rng));
    rhs.push_back(rnd(c, b, rng));
    gx[key] = xs.back();
    gy[key] = ys.back();
    gi[key] = inner.back();
    gsame[key] = same_size.back();
    gs[key] = Eigen::SerializableLDLT(sq.back());
    grhs[key] = rhs.back();
  }
  single({{"op", j("block_sum")}, {"xs", jms(inner)}, {"out", jm(al::block_sum(inner))}});
  single({{"op", j("block_sum")}, {"xs", jms(inner)}, {"out", jm(al::block_sum(gi))}});
  single({{"op", j("block_product")}, {"xs", jms(xs)}, {"ys", jms(ys)}, {"out", jm(al::block_product<int, void>(gx, gy))}});
  single({{"op", j("block_inner")}, {"xs", jms(inner)}, {"ys", jms(same_size)}, {"out", jm(al::block_inner_product(gi, gsame))}});
  auto split = [](const auto &g, std::vector<int> *k2, Mats *v) {
    for (const auto &kv : g) {
      k2->push_back(kv.first);
      v->push_back(kv.second);
    }
  };
  std::vector<int> k2, k3;
  Mats v2, v3;
  split(al::block_diag_solve(gs, grhs), &k2, &v2);
  single({{"op", j("block_solve")}, {"keys", j(keys)}, {"xs", jms(sq)}, {"ys", jms(rhs)}, {"keys_out", j(k2)}, {"out", jms(v2)}});
  split(al::block_subtract(gi, gsame), &k3, &v3);
  single({{"op", j("block_minus")}, {"keys", j(keys)}, {"xs", jms(inner)}, {"ys", jms(same_size)}, {"keys_out", j(k3)}, {"out", jms(v3)}});
  Mats stack;
  for (int i = size(rng, 1, 3, 1, 30); i > 0; --i)
    stack.push_back(rnd(size(rng, 0, 3, 0, 20), 2, rng));
  MatrixXd expect;
  single({{"op", j("stack")}, {"blocks", jms(stack)}, {"out", jm(al::vertical_stack(stack))}});
}

int main(int argc, char **argv) {
  const Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  label("enumerated");
  for (const auto &in : read_inputs(args.in)) {
    const auto rows = in.at("A");
    MatrixXd A(rows.size(), rows.size());
    for (std::size_t r = 0; r < rows.size(); ++r)
      for (std::size_t c = 0; c < rows.size(); ++c)
        A(static_cast<int>(r), static_cast<int>(c)) = rows[r][c].get<double>();
    const bool definite = Eigen::SelfAdjointEigenSolver<MatrixXd>(A).eigenvalues().minCoeff() > 1e-3;
    factored(A, definite, rng);
    end_behaviour();
  }
  for (int i = 0; i < args.scale(25, 250); ++i) {
    label("factored");
    g_large = i % 12 == 5;
    const Eigen::Index n = size(rng, 1, 6, 42, 46);
    factored(spd(n, rng), true, rng);
    end_behaviour();
    if (!g_large) {
      const MatrixXd half = rnd(n, rng.range(1, static_cast<int>(n)), rng);
      factored(half * half.transpose(), false, rng);
      end_behaviour();
    }
    label("block diagonal");
    Mats blocks;
    for (int k = size(rng, 1, 4, 9, 11); k > 0; --k)
      blocks.push_back(spd(size(rng, 1, 3, 1, 14), rng));
    block_diagonal(blocks, rng);
    end_behaviour();
    label("units");
    const Units u{std::ldexp(1., rng.pick(std::vector<int>{-300, -50, -30, 30, 50, 300})), std::ldexp(1., rng.pick(std::vector<int>{-300, -45, 0, 45, 300}))};
    factored(u.matrix * spd(rng.range(1, 6), rng), true, rng, u.rhs);
    end_behaviour();
    for (auto &b : blocks)
      b *= u.matrix;
    block_diagonal(blocks, rng, u);
    end_behaviour();
    const MatrixXd A = u.matrix * spd(size(rng, 1, 4, 8, 20), rng, false);
    step({{"op", j("system")}, {"kind", j("dense")}, {"A", jm(A)}});
    grow<3>(Eigen::SerializableLDLT(A), A, rng, u);
    end_behaviour();
    label("rectangular blocks");
    rectangular(rng);
    label("block symmetric");
    symmetric(rng);
    label("qr");
    qrs(rng);
    label("pivot");
    pivots(rng);
    label("truncated");
    truncated(rng);
    label("directions");
    directions(rng);
    label("block utils");
    block_utils(rng);
  }
  return finish();
}
