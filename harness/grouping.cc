#define VERIF_EIGEN
#include <albatross/Evaluation>
#include "common.hpp"
#include "input.hpp"
using namespace verif;
using namespace albatross;

struct Elt {
  int id = -1;
  int key = -1; // rank of the key this element belongs to
  bool operator==(const Elt &o) const { return id == o.id && key == o.key; }
};
using Data = RegressionDataset<Elt>;
using Vec = std::vector<Elt>;

// ---- key types: key_of<K>(rank) is increasing in rank
template <typename K> struct Key;
template <> struct Key<int> { static int of(int r) { return 3 * r - 4; } };
template <> struct Key<std::size_t> { static std::size_t of(int r) { return static_cast<std::size_t>(r) * 7; } };
template <> struct Key<bool> { static bool of(int r) { return r > 0; } };
template <> struct Key<double> { static double of(int r) { return r == 0 ? -std::numeric_limits<double>::infinity() : 0.5 * r - 1; } };
template <> struct Key<std::string> {
  static std::string of(int r) {
    static const std::vector<std::string> names = {"", "10", "9", "A", "a", "aa", "ab", "b", "c", "d", "e", "f"};
    return r < 12 ? names[static_cast<std::size_t>(r)] : "z" + std::string(static_cast<std::size_t>(r), 'z');
  }
};
template <typename K> int rank_of(const K &k) {
  for (int r = 0; r < 400; ++r)
    if (Key<K>::of(r) == k)
      return r;
  return -1;
}
// schemes use std::size_t keys that stand for themselves
struct Plain {
  static int rank(std::size_t k) { return static_cast<int>(k); }
};
template <typename K> struct ByType {
  static int rank(const K &k) { return rank_of(k); }
};

// ---- logging elements and containers
J x(const Elt &e) { return arr({j(e.id), j(e.key)}); }
J seq(const Vec &v) {
  std::vector<J> o;
  for (const auto &e : v)
    o.push_back(x(e));
  return arr(o);
}
J seq(const Data &d) {
  std::vector<J> o;
  for (std::size_t i = 0; i < d.size(); ++i) {
    const auto ii = static_cast<Eigen::Index>(i);
    o.push_back(arr({x(d.features[i]), j(d.targets.mean[ii]), j(d.targets.covariance.diagonal()[ii])}));
  }
  if (static_cast<std::size_t>(d.targets.mean.size()) != d.size() || static_cast<std::size_t>(d.targets.covariance.diagonal().size()) != d.size())
    o.push_back(j("sizes differ"));
  return arr(o);
}
J seq(const std::vector<std::size_t> &v) { return j(v); }
J seq(std::size_t v) { return j(v); }
J seq(int v) { return j(v); }
J seq(const std::string &v) { return j(v); }
J seq(const std::vector<short> &v) { return j(v); }
template <typename A, typename B> J seq(const std::pair<A, B> &p) { return arr({seq(p.first), seq(p.second)}); }
J seq(const RegressionFold<Elt> &f) {
  return obj({{"test_indices", j(f.test_indices)}, {"test", seq(f.test_dataset)}, {"train", seq(f.train_dataset)}});
}
template <typename R, typename M> J groups(const M &m) {
  std::vector<J> o;
  for (const auto &kv : m)
    o.push_back(arr({j(R::rank(kv.first)), seq(kv.second)}));
  return arr(o);
}
template <typename R, typename K> J keys(const std::vector<K> &ks) {
  std::vector<J> o;
  for (const auto &k : ks)
    o.push_back(j(R::rank(k)));
  return arr(o);
}

Data make_data(const Vec &v, bool cov, Rng &rng) {
  Eigen::VectorXd y(static_cast<Eigen::Index>(v.size())), s(y.size());
  for (Eigen::Index i = 0; i < y.size(); ++i) {
    y[i] = rng.dyadic();
    s[i] = rng.dyadic(1, 64);
  }
  return Data(v, cov ? MarginalDistribution(y, s) : MarginalDistribution(y));
}

template <typename Indexer> void fold_ops(const Vec &, const Indexer &) {}

template <typename R, typename Collection, typename By, typename Grouper>
void group_ops(const Collection &c, const By &by, const Grouper &grouper, const char *kind, std::size_t n, Rng &rng) {
  using K = typename decltype(by.keys())::value_type;
  step({{"op", j("indexers")}, {"kind", j(kind)}, {"out", groups<R>(by.indexers())}});
  step({{"op", j("keys")}, {"out", keys<R>(by.keys())}});
  step({{"op", j("size")}, {"out", j(by.size())}});
  step({{"op", j("counts")}, {"out", groups<R>(by.counts())}});
  const auto gs = by.groups();
  step({{"op", j("groups")}, {"kind", j(kind)}, {"out", groups<R>(gs)}});
  step({{"op", j("keys")}, {"out", keys<R>(gs.keys())}});
  step({{"op", j("size")}, {"out", j(gs.size())}});
  for (const auto &k : by.keys()) {
    step({{"op", j("get_group")}, {"key", j(R::rank(k))}, {"out", seq(by.get_group(k))}});
    step({{"op", j("get_group")}, {"key", j(R::rank(k))}, {"out", seq(gs.at(k))}});
  }
  if (n > 0) {
    const auto a = by.first_group();
    step({{"op", j("first_group")}, {"out", arr({j(R::rank(a.first)), seq(a.second)})}});
    const auto b = gs.first_group();
    step({{"op", j("first_group")}, {"out", arr({j(R::rank(b.first)), seq(b.second)})}});
  }
  // together with a second collection
  std::vector<short> ys(n);
  for (auto &y : ys)
    y = static_cast<short>(rng.range(-99, 99));
  step({{"op", j("with")}, {"ys", j(ys)}, {"out", groups<R>(by.with(ys))}});
  std::map<K, int> zs;
  for (const auto &k : by.keys())
    zs[k] = rng.range(0, 99);
  step({{"op", j("with_grouped")}, {"zs", groups<R>(zs)}, {"out", groups<R>(by.with(zs))}});
  // index_apply, both on the GroupBy object and on its indexers
  std::vector<int> result(n + 1);
  for (auto &r : result)
    r = rng.range(0, 1000);
  auto result_of = [&](std::size_t m) { return result[m - 1]; };
  for (int how = 0; how < 3; ++how) {
    std::vector<J> calls;
    auto f = [&](const K &k, const GroupIndices &idx) {
      calls.push_back(arr({j(R::rank(k)), j(idx)}));
      return result_of(idx.size());
    };
    auto g = [&](const K &k, const GroupIndices &idx) { calls.push_back(arr({j(R::rank(k)), j(idx)})); };
    J out;
    if (how == 0)
      out = groups<R>(by.index_apply(f));
    else if (how == 1)
      out = groups<R>(by.indexers().index_apply(f));
    else {
      by.index_apply(g);
      std::vector<J> o;
      for (const auto &kv : by.indexers())
        o.push_back(arr({j(R::rank(kv.first)), j(result_of(kv.second.size()))}));
      out = arr(o);
    }
    step({{"op", j("index_apply")}, {"calls", arr(calls)}, {"calls_result", j(result)}, {"out", out}});
  }
  step({{"op", j("recombined")}, {"out", seq(gs.combine())}});
  step({{"op", j("recombined")}, {"out", seq(combine(gs.get_map()))}});
  // indices of chosen groups, in any order and with repeats
  std::vector<K> chosen;
  const auto ks = by.keys();
  if (!ks.empty())
    for (int m = rng.range(0, 4); m-- > 0;)
      chosen.push_back(ks[static_cast<std::size_t>(rng.range(0, static_cast<int>(ks.size()) - 1))]);
  step({{"op", j("indices_from_groups")}, {"keys", keys<R>(chosen)}, {"out", j(indices_from_groups(by.indexers(), chosen))}});
  step({{"op", j("indexers")}, {"kind", j("build_indexer")}, {"out", groups<R>(build_indexer(grouper, by._get_iterable()))}});
  step({{"op", j("unique_indices")}, {"out", j(unique_indices(by.indexers()))}});
  if (n > 0)
    step({{"op", j("dataset_size")}, {"kind", j("indexer")}, {"out", j(dataset_size_from_indexer(by.indexers()))}});
  step({{"op", j("unchanged")}, {"xs", seq(c)}});
}

template <typename R, typename By, typename Grouper>
void data_ops(const Data &d, const By &by, const Grouper &grouper, Rng &rng) {
  const auto folds = folds_from_group_indexer(d, by.indexers());
  step({{"op", j("folds")}, {"out", groups<R>(folds)}});
  step({{"op", j("folds")}, {"out", groups<R>(folds_from_grouper(d, grouper))}});
  step({{"op", j("indexer_from_folds")}, {"out", groups<R>(group_indexer_from_folds(folds.get_map()))}});
  // an indexer made by hand lists its indices in any order
  auto by_hand = by.indexers();
  for (const auto &k : by_hand.keys())
    rng.shuffle(by_hand[k]);
  step({{"op", j("folds_by_hand")}, {"ix", groups<R>(by_hand)}, {"out", groups<R>(folds_from_group_indexer(d, by_hand))}});
  // any subset of the data may be held out, in any order
  std::vector<std::size_t> idx;
  for (std::size_t i = 0; i < d.size(); ++i)
    if (rng.chance(1, 2))
      idx.push_back(i);
  rng.shuffle(idx);
  step({{"op", j("create_fold")}, {"idx", j(idx)}, {"out", seq(create_fold(idx, d))}});
  step({{"op", j("unchanged")}, {"xs", seq(d)}});
}

template <typename R, typename Grouper>
void all_ops(const Vec &v, const Data &d, const Grouper &g, const char *kind, Rng &rng, const J &ks, const Fields *scheme) {
  step({{"op", j("start")}, {"xs", seq(v)}, {"ks", ks}});
  if (scheme)
    step(*scheme);
  group_ops<R>(v, group_by(v, g), g, kind, v.size(), rng);
  end_behaviour();
  step({{"op", j("start")}, {"xs", seq(d)}, {"ks", ks}});
  if (scheme)
    step(*scheme);
  group_ops<R>(d, rng.coin() ? group_by(d, g) : d.group_by(g), g, kind, v.size(), rng);
  data_ops<R>(d, d.group_by(g), g, rng);
  end_behaviour();
}
template <typename K> K key_function(const Elt &e) { return Key<K>::of(e.key); }
template <typename K> struct KeyFunctor {
  K operator()(const Elt &e) const { return Key<K>::of(e.key); }
};

void schemes(const std::vector<int> &ranks, int k, Rng &rng) {
  Vec v;
  for (std::size_t i = 0; i < ranks.size(); ++i)
    v.push_back({static_cast<int>(i), ranks[i]});
  const Data d = make_data(v, rng.coin(), rng);
  label("schemes on " + j(ranks).s.substr(0, 200));
  const Fields loo = {{"op", j("scheme")}, {"scheme", j("leave_one_out")}, {"k", j(0)}};
  all_ops<Plain>(v, d, LeaveOneOutGrouper(), "leave one out", rng, j(ranks), &loo);
  const Fields kf = {{"op", j("scheme")}, {"scheme", j("k_fold")}, {"k", j(k)}};
  all_ops<Plain>(v, d, KFoldGrouper(static_cast<std::size_t>(k)), "k fold", rng, j(ranks), &kf);
  if (k == 2) {
    all_ops<Plain>(v, d, KFoldGrouper(), "k fold", rng, j(ranks), &kf);
  }
}

template <typename K> void exercise(const std::vector<int> &ranks, Rng &rng) {
  Vec v;
  for (std::size_t i = 0; i < ranks.size(); ++i)
    v.push_back({static_cast<int>(i), ranks[i]});
  const Data d = make_data(v, rng.coin(), rng);
  label("group " + j(ranks).s.substr(0, 200));
  const J ks = j(ranks);
  if (rng.coin())
    all_ops<ByType<K>>(v, d, [](const Elt &e) { return Key<K>::of(e.key); }, "lambda", rng, ks, nullptr);
  else if (rng.coin())
    all_ops<ByType<K>>(v, d, KeyFunctor<K>(), "functor", rng, ks, nullptr);
  else
    all_ops<ByType<K>>(v, d, select_overload<Elt>(key_function<K>), "function", rng, ks, nullptr);
}
void any(const std::vector<int> &ranks, int type, Rng &rng) {
  switch (type % 5) {
  case 0: return exercise<int>(ranks, rng);
  case 1: return exercise<std::string>(ranks, rng);
  case 2: return exercise<std::size_t>(ranks, rng);
  case 3: return exercise<double>(ranks, rng);
  default:
    for (int r : ranks)
      if (r > 1)
        return exercise<int>(ranks, rng);
    return exercise<bool>(ranks, rng);
  }
}

int main(int argc, char **argv) {
  Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  int type = 0;
  for (const auto &in : read_inputs(args.in)) {
    const std::vector<int> ranks = in["ks"].get<std::vector<int>>();
    any(ranks, type++, rng);
    if (type % 4 == 0)
      schemes(ranks, rng.range(1, 7), rng);
  }
  for (int k = 0; k < args.scale(60, 1500); ++k) {
    const int n = k % 20 == 7 ? rng.range(40, 90) : rng.range(0, 20), m = n > 20 && rng.coin() ? rng.range(8, 90) : rng.range(1, 8);
    std::vector<int> ranks;
    for (int i = 0; i < n; ++i)
      ranks.push_back(rng.range(0, m));
    any(ranks, rng.range(0, 4), rng);
    schemes(ranks, rng.range(1, n + 3), rng);
  }
  return finish();
}
