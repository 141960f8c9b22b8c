#define VERIF_EIGEN
#include <albatross/Indexing>
#include "common.hpp"
#include "input.hpp"
using namespace verif;
namespace al = albatross;
using I = std::vector<int>;

template <typename S> std::vector<S> as(const I &idx) {
  std::vector<S> o;
  for (int i : idx)
    o.push_back(static_cast<S>(i));
  return o;
}
Eigen::VectorXd vec(int n, Rng &rng) {
  Eigen::VectorXd v(n);
  for (int i = 0; i < n; ++i)
    v[i] = rng.dyadic();
  return v;
}
Eigen::MatrixXd mat(int r, int c, Rng &rng) {
  Eigen::MatrixXd m(r, c);
  for (int i = 0; i < r; ++i)
    for (int k = 0; k < c; ++k)
      m(i, k) = rng.dyadic();
  return m;
}
J jdiag(const Eigen::VectorXd &d) { return jv(d); }

// `subset(xs, std::vector<int>)` asserts index < xs.size(): the comparison of
// signed and unsigned is the library's own, indices here are never negative.
template <typename S> void select(int n, const I &idx_, Rng &rng) {
  const auto idx = as<S>(idx_);
  label("select n=" + std::to_string(n) + " idx=" + j(idx_).s.substr(0, 200));
  const J jidx = j(idx_);
  std::vector<int> xi;
  std::vector<std::string> xs;
  for (int i = 0; i < n; ++i) {
    xi.push_back(rng.range(-9, 9));
    xs.push_back(std::string(static_cast<std::size_t>(rng.range(0, 3)), 'x') + std::to_string(i));
  }
  J b = j(xi);
  J out = j(al::subset(xi, idx));
  single({{"op", j("subset")}, {"kind", j("vector")}, {"xs", b}, {"idx", jidx}, {"out", out}, {"xs_after", j(xi)}});
  b = j(xs);
  out = j(al::subset(xs, idx));
  single({{"op", j("subset")}, {"kind", j("vector of strings")}, {"xs", b}, {"idx", jidx}, {"out", out}, {"xs_after", j(xs)}});
  const Eigen::VectorXd v = vec(n, rng);
  b = jv(v);
  out = jv(al::subset(v, idx));
  single({{"op", j("subset")}, {"kind", j("Eigen vector")}, {"xs", b}, {"idx", jidx}, {"out", out}, {"xs_after", jv(v)}});

  const Eigen::MatrixXd rows = mat(n, rng.range(1, 4), rng), cols = mat(rng.range(1, 4), n, rng), sq = n > 90 ? Eigen::MatrixXd() : mat(n, n, rng);
  single({{"op", j("subset_rows")}, {"xs", jm(rows)}, {"idx", jidx}, {"out", jm(al::subset_rows(rows, idx))}});
  single({{"op", j("subset_cols")}, {"xs", jm(cols)}, {"idx", jidx}, {"out", jm(al::subset_cols(cols, idx))}});
  I ci;
  for (int k = rng.range(0, 4); k-- > 0;)
    ci.push_back(rng.range(0, static_cast<int>(rows.cols()) - 1));
  single({{"op", j("subset_both")}, {"xs", jm(rows)}, {"rows", jidx}, {"cols", j(ci)}, {"out", jm(al::subset(rows, idx, as<S>(ci)))}});
  if (n <= 90)
    single({{"op", j("symmetric_subset")}, {"xs", jm(sq)}, {"idx", jidx}, {"out", jm(al::symmetric_subset(sq, idx))}});
  Eigen::DiagonalMatrix<double, Eigen::Dynamic> dg(v);
  single({{"op", j("diagonal_subset")}, {"xs", jv(v)}, {"idx", jidx}, {"out", jv(al::symmetric_subset(dg, idx).diagonal())}});

  const Eigen::VectorXd from = vec(static_cast<int>(idx.size()), rng);
  Eigen::VectorXd to = v;
  al::set_subset(from, idx, &to);
  single({{"op", j("set_subset")}, {"kind", j("vector")}, {"to", jv(v)}, {"idx", jidx}, {"from", jv(from)}, {"out", jv(to)}, {"from_after", jv(from)}});
  if (n > 0) {
    Eigen::DiagonalMatrix<double, Eigen::Dynamic> fd(from), td(v);
    al::set_subset(fd, idx, &td);
    single({{"op", j("set_subset")}, {"kind", j("diagonal matrix")}, {"to", jv(v)}, {"idx", jidx}, {"from", jv(from)}, {"out", jv(td.diagonal())}, {"from_after", jv(fd.diagonal())}});
  }
  single({{"op", j("complement")}, {"idx", jidx}, {"n", j(n)}, {"out", j(al::indices_complement(as<std::size_t>(idx_), static_cast<std::size_t>(n)))}});
}

void values(Rng &rng) {
  std::vector<int> xs, ys;
  for (int k = rng.size(0, 9, 150, 25); k-- > 0;)
    xs.push_back(rng.range(-3, 5));
  for (int k = rng.size(0, 9, 90, 25); k-- > 0;)
    ys.push_back(rng.range(-3, 5));
  label("values " + j(xs).s + " " + j(ys).s);
  const std::set<int> sx(xs.begin(), xs.end()), sy(ys.begin(), ys.end());
  single({{"op", j("set_difference")}, {"kind", j("vectors")}, {"xs", j(xs)}, {"ys", j(ys)}, {"out", j(al::vector_set_difference(xs, ys))}});
  single({{"op", j("set_difference")}, {"kind", j("sets")}, {"xs", j(sx)}, {"ys", j(sy)}, {"out", j(al::set_difference(sx, sy))}});
  single({{"op", j("unique")}, {"xs", j(xs)}, {"out", j(al::unique_values(xs))}});
  std::vector<int> table;
  for (int i = 0; i < 9; ++i)
    table.push_back(rng.range(-4, 4));
  std::vector<J> calls;
  auto f = [&](int x) {
    const int r = table[static_cast<std::size_t>(x + 3)];
    calls.push_back(arr({j(x), j(r)}));
    return r;
  };
  J out = j(al::unique_values(xs, f));
  single({{"op", j("unique_of")}, {"xs", j(xs)}, {"calls", arr(calls)}, {"out", out}});
  calls.clear();
  out = j(al::unique_values(sx, f));
  single({{"op", j("unique_of")}, {"xs", j(sx)}, {"calls", arr(calls)}, {"out", out}});
  const std::vector<int> same(static_cast<std::size_t>(rng.size(1, 4, 80)), rng.range(-3, 5));
  single({{"op", j("unique_value")}, {"xs", j(same)}, {"out", j(al::unique_value(same))}});
  single({{"op", j("unique_value")}, {"xs", j(same)}, {"out", j(al::unique_value(std::set<int>(same.begin(), same.end())))}});
  {
    std::vector<int> images;
    for (int x : same)
      images.push_back(table[static_cast<std::size_t>(x + 3)]);
    single({{"op", j("unique_value")}, {"xs", j(images)}, {"out", j(al::unique_value(same, f))}});
  }
  calls.clear();
  auto p = [&](int x) {
    const bool r = table[static_cast<std::size_t>(x + 3)] > 0;
    calls.push_back(arr({j(x), j(r)}));
    return r;
  };
  out = j(al::filter(xs, p));
  single({{"op", j("filter")}, {"kind", j("vector")}, {"xs", j(xs)}, {"calls", arr(calls)}, {"out", out}, {"xs_after", j(xs)}});
  calls.clear();
  out = j(al::filter(sx, p));
  single({{"op", j("filter")}, {"kind", j("set")}, {"xs", j(sx)}, {"calls", arr(calls)}, {"out", out}, {"xs_after", j(sx)}});
  calls.clear();
  out = j(al::apply(xs, f));
  single({{"op", j("apply")}, {"xs", j(xs)}, {"calls", arr(calls)}, {"void", j(false)}, {"out", out}});
  calls.clear();
  out = j(al::apply(xs, p));
  single({{"op", j("apply")}, {"xs", j(xs)}, {"calls", arr(calls)}, {"void", j(false)}, {"out", out}});
  calls.clear();
  al::apply(xs, [&](int x) { calls.push_back(arr({j(x), j(0)})); });
  single({{"op", j("apply")}, {"xs", j(xs)}, {"calls", arr(calls)}, {"void", j(true)}, {"out", j(0)}});
  // a RegressionDataset is filtered by its features
  al::RegressionDataset<int> d(xs, al::MarginalDistribution(vec(static_cast<int>(xs.size()), rng)));
  calls.clear();
  const auto fd = al::filter(d, p);
  single({{"op", j("filter")}, {"kind", j("dataset")}, {"xs", j(xs)}, {"calls", arr(calls)}, {"out", j(fd.features)}, {"xs_after", j(d.features)}});

  std::vector<bool> bs;
  for (int k = rng.range(0, 70) > 60 ? rng.range(60, 140) : rng.range(0, 5); k-- > 0;)
    bs.push_back(rng.chance(1, 2));
  for (int style = 0; style < 3; ++style) {
    if (style == 1)
      std::fill(bs.begin(), bs.end(), true);
    if (style == 2) {
      std::fill(bs.begin(), bs.end(), false);
      if (!bs.empty() && rng.coin())
        bs[static_cast<std::size_t>(rng.range(0, static_cast<int>(bs.size()) - 1))] = true;
    }
    single({{"op", j("all")}, {"xs", j(bs)}, {"out", j(al::all(bs))}});
    single({{"op", j("any")}, {"xs", j(bs)}, {"out", j(al::any(bs))}});
    std::vector<bool> nb = bs;
    nb.flip();
    single({{"op", j("all")}, {"xs", j(nb)}, {"out", j(al::all(nb))}});
    single({{"op", j("any")}, {"xs", j(nb)}, {"out", j(al::any(nb))}});
  }
  const int x = rng.range(-4, 6);
  single({{"op", j("contains")}, {"xs", j(xs)}, {"x", j(x)}, {"out", j(al::vector_contains(xs, x))}});
  std::vector<std::string> ss;
  for (int v : xs)
    ss.push_back(std::to_string(v));
  single({{"op", j("contains")}, {"xs", j(ss)}, {"x", j(std::to_string(x))}, {"out", j(al::vector_contains(ss, std::to_string(x)))}});

  const double a = rng.dyadic(), c = rng.chance(1, 6) ? a : rng.dyadic(-4000, 4000);
  const std::size_t n = static_cast<std::size_t>(rng.size(1, 12, 300));
  single({{"op", j("linspace")}, {"a", j(a)}, {"b", j(c)}, {"n", j(n)}, {"out", j(al::linspace(a, c, n))}});
  const double big = rng.range(0, 1 << 20) * (rng.coin() ? 0.125 : 1073741824.);
  single({{"op", j("to_size")}, {"x", j(big)}, {"out", j(std::to_string(al::safe_cast_to_size_t(big)))}});
  const int size = rng.chance(1, 4) ? rng.range(0, 2000) : rng.range(0, 12), count = rng.size(1, 9, 64);
  std::vector<std::pair<int, int>> blocks;
  for (const auto &q : al::detail::partition_triangular(size, count))
    blocks.emplace_back(static_cast<int>(q.first), static_cast<int>(q.second));
  single({{"op", j("partition")}, {"size", j(size)}, {"count", j(count)}, {"out", j(blocks)}});
}

int main(int argc, char **argv) {
  Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  for (const auto &in : read_inputs(args.in)) {
    const I idx = in["idx"].get<I>();
    if (rng.coin())
      select<std::size_t>(in["n"], idx, rng);
    else
      select<int>(in["n"], idx, rng);
  }
  for (int k = 0; k < args.scale(150, 3000); ++k) {
    const bool large = k % 30 == 11;
    const int n = large ? (rng.coin() ? rng.range(60, 90) : rng.range(260, 400)) : rng.range(1, 15);
    I idx;
    for (int m = rng.range(0, n > 90 ? 300 : large ? 100 : 20); m-- > 0;)
      idx.push_back(rng.range(0, n - 1));
    if (rng.coin())
      select<Eigen::Index>(n, idx, rng);
    else
      select<std::size_t>(n, idx, rng);
    values(rng);
    values(rng);
  }
  return finish();
}
