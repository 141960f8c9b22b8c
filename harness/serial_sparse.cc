#include "serial_check.hpp"
#include <albatross/GP>
#include <albatross/SparseGP>
#include <albatross/serialize/GP>
using Sparse = Eigen::SparseMatrix<double>;
using Spqr = Eigen::SerializableSPQR<Sparse>;
// SPQR owns memory of a C library and cannot be copied: held by pointer, and
// serialized by its own members
struct Qr {
  std::shared_ptr<Spqr> q = std::make_shared<Spqr>();
  bool computed = false;
  template <typename Ar> void save(Ar &ar, const std::uint32_t v) const { ar(CEREAL_NVP(computed)); if (computed) q->save(ar, v); }
  template <typename Ar> void load(Ar &ar, const std::uint32_t v) { ar(CEREAL_NVP(computed)); if (computed) q->load(ar, v); }
};
template <> struct Sample<Qr> {
  static Qr make(int kind, Rng &rng) {
    Qr x;
    if (kind == 0)
      return x;
    const int c = kind == 1 ? 1 : kind == 4 ? rng.range(5, 40) : rng.range(2, 5), r = kind == 1 ? 1 : kind == 4 ? c + rng.range(1, 6) : c + rng.range(0, 3);
    Sparse m(r, c);
    std::vector<Eigen::Triplet<double>> t;
    for (int i = 0; i < r; ++i)
      for (int k = 0; k < c; ++k)
        if (i == k || rng.chance(1, 2))
          t.emplace_back(i, k, i == k ? 8. + rng.range(0, 7) : rng.range(1, 24) / 8.);
    m.setFromTriplets(t.begin(), t.end());
    x.q->setSPQROrdering(rng.pick(std::vector<int>{SPQR_ORDERING_COLAMD, SPQR_ORDERING_NATURAL, SPQR_ORDERING_AMD}));
    x.q->compute(m);
    x.computed = true;
    return x;
  }
  static J is(const Qr &x) {
    if (!x.computed)
      return j("empty");
    return arr({j(static_cast<long>(x.q->rows())), j(static_cast<long>(x.q->cols())), j(static_cast<long>(x.q->rank())), jdense(Eigen::MatrixXd(Sparse(x.q->matrixR()))), jdense(x.q->colsPermutation().indices()), j(x.q->info() == Eigen::Success)});
  }
  static J does(const Qr &x) {
    if (!x.computed)
      return arr({});
    const Eigen::VectorXd b = Eigen::VectorXd::LinSpaced(x.q->rows(), 1., 2.);
    const Eigen::VectorXd s = x.q->solve(b);
    return jv(s);
  }
};
template <> struct Rewrites<Qr> : std::false_type {}; // the C library also keeps statistics of its own use
// the C library's own matrices
struct Csparse {
  std::shared_ptr<cholmod_sparse> m;
  Csparse() : m(blank()) {}
  static std::shared_ptr<cholmod_sparse> blank() {
    auto *p = new cholmod_sparse();
    std::memset(p, 0, sizeof *p);
    return {p, [](cholmod_sparse *q) { free(q->p); free(q->i); free(q->nz); free(q->x); delete q; }};
  }
  template <typename Ar> void save(Ar &ar, const std::uint32_t) const { ar(cereal::make_nvp("m", *m)); }
  template <typename Ar> void load(Ar &ar, const std::uint32_t) { ar(cereal::make_nvp("m", *m)); }
};
template <typename T> std::size_t bytes(std::size_t n) { return std::max<std::size_t>(1, n) * sizeof(T); }
template <> struct Sample<Csparse> : Plain {
  static Csparse make(int kind, Rng &rng) {
    Csparse c;
    cholmod_sparse &m = *c.m;
    const bool wide = rng.coin(), complex = kind == 4;
    m.nrow = static_cast<std::size_t>(rng.range(1, 5));
    m.ncol = static_cast<std::size_t>(kind == 1 ? 1 : rng.range(1, 5));
    m.nzmax = m.nrow * m.ncol;
    m.itype = wide ? CHOLMOD_LONG : CHOLMOD_INT;
    m.xtype = complex ? CHOLMOD_COMPLEX : CHOLMOD_REAL;
    m.dtype = CHOLMOD_DOUBLE;
    m.sorted = 1;
    m.packed = rng.coin() ? 1 : 0;
    m.stype = 0;
    const std::size_t w = wide ? sizeof(SuiteSparse_long) : sizeof(int);
    m.p = calloc(m.ncol + 1, w);
    m.i = calloc(m.nzmax, w);
    if (!m.packed)
      m.nz = calloc(m.ncol, w);
    const std::size_t n = m.nzmax * (complex ? 2 : 1);
    m.x = calloc(n, sizeof(double));
    auto set = [&](void *a, std::size_t k, std::size_t v) { if (wide) static_cast<SuiteSparse_long *>(a)[k] = static_cast<SuiteSparse_long>(v); else static_cast<int *>(a)[k] = static_cast<int>(v); };
    for (std::size_t k = 0; k <= m.ncol; ++k)
      set(m.p, k, k * m.nrow);
    for (std::size_t k = 0; k < m.nzmax; ++k)
      set(m.i, k, k % m.nrow);
    if (!m.packed)
      for (std::size_t k = 0; k < m.ncol; ++k)
        set(m.nz, k, m.nrow);
    for (std::size_t k = 0; k < n; ++k)
      static_cast<double *>(m.x)[k] = some_real(kind, rng);
    return c;
  }
  static J ints(const cholmod_sparse &m, const void *a, std::size_t n) {
    std::vector<J> v;
    for (std::size_t k = 0; a && k < n; ++k)
      v.push_back(j(m.itype == CHOLMOD_LONG ? static_cast<long>(static_cast<const SuiteSparse_long *>(a)[k]) : static_cast<long>(static_cast<const int *>(a)[k])));
    return arr(v);
  }
  static J is(const Csparse &c) {
    const auto &m = *c.m;
    std::vector<J> x;
    for (std::size_t k = 0; m.x && k < m.nzmax * (m.xtype == CHOLMOD_COMPLEX ? 2 : 1); ++k)
      x.push_back(j(static_cast<const double *>(m.x)[k]));
    return arr({j(m.nrow), j(m.ncol), j(m.nzmax), j(m.itype), j(m.xtype), j(m.dtype), j(m.sorted), j(m.packed), j(m.stype), m.p ? ints(m, m.p, m.ncol + 1) : arr({}), ints(m, m.i, m.nzmax), m.packed ? arr({}) : ints(m, m.nz, m.ncol), arr(x)});
  }
};
void sparse_types(const std::vector<Script> &scripts, Rng &rng, int every) {
  all_archives<Qr>("SPQR", scripts, rng, every, false);
  all_archives<Csparse>("cholmod_sparse", scripts, rng, every, false);
}
