#define VERIF_EIGEN
#include <albatross/Indexing>
#include "common.hpp"
#include "input.hpp"
using namespace verif;
namespace al = albatross;
using nlohmann::json;

// a feature whose equality is on the key only
struct F {
  int key = 0;
  bool operator==(const F &o) const { return key == o.key; }
};
std::ostream &operator<<(std::ostream &os, const F &f) { return os << f.key; }
struct G { // a second feature type
  int key = 0;
  bool operator==(const G &o) const { return key == o.key; }
};
struct H {
  int key = 0;
  bool operator==(const H &o) const { return key == o.key; }
};
J jf(const F &f) { return j(f.key); }
J jf(const G &f) { return j(f.key); }
J jf(const H &f) { return j(f.key); }
J tagged(const F &f) { return arr({j("F"), j(f.key)}); }
J tagged(const G &f) { return arr({j("G"), j(f.key)}); }
J tagged(const H &f) { return arr({j("H"), j(f.key)}); }
template <typename... T> J tagged(const mapbox::util::variant<T...> &v) {
  return v.match([](const auto &x) { return tagged(x); });
}
template <typename X, typename Fn> J rows_with(const al::RegressionDataset<X> &d, Fn fn) {
  std::vector<J> o;
  const std::size_t n = std::max<std::size_t>(d.features.size(), std::max(d.targets.mean.size(), d.targets.covariance.diagonal().size()));
  for (std::size_t i = 0; i < n; ++i) {
    const auto ii = static_cast<Eigen::Index>(i);
    if (i >= d.features.size() || ii >= d.targets.mean.size() || ii >= d.targets.covariance.diagonal().size())
      o.push_back(arr({j(-1), j("missing"), j("missing")}));
    else
      o.push_back(arr({fn(d.features[i]), j(d.targets.mean[ii]), j(d.targets.covariance.diagonal()[ii])}));
  }
  return arr(o);
}
template <typename X> J rows(const al::RegressionDataset<X> &d) {
  return rows_with(d, [](const auto &f) { return jf(f); });
}
template <typename X> J trows(const al::RegressionDataset<X> &d) {
  return rows_with(d, [](const auto &f) { return tagged(f); });
}

double counter = 0;
template <typename X> al::RegressionDataset<X> make(const std::vector<int> &keys, bool cov) {
  std::vector<X> f;
  Eigen::VectorXd y(static_cast<Eigen::Index>(keys.size())), v(y.size());
  for (std::size_t i = 0; i < keys.size(); ++i) {
    X x;
    x.key = keys[i];
    f.push_back(x);
    counter += 0.125;
    y[static_cast<Eigen::Index>(i)] = counter;
    v[static_cast<Eigen::Index>(i)] = 1000 + counter;
  }
  if (cov)
    return al::RegressionDataset<X>(f, al::MarginalDistribution(y, v));
  return al::RegressionDataset<X>(f, y);
}

using D = al::RegressionDataset<F>;
constexpr int kKeys = 6; // features are 1 .. kKeys

struct Machine {
  D a, b;
  Rng &rng;
  int most = 12; // sizes the history may grow to
  void begin() { step({{"op", j("start")}, {"a", rows(a)}, {"b", rows(b)}}); }
  J key_table(const std::vector<int> &t) { return j(t); } // t[f - 1] is the key of feature f

  void create() {
    std::vector<J> f;
    for (const auto &x : a.features)
      f.push_back(jf(x));
    D c = rng.coin() ? D(a.features, a.targets) : al::create_dataset(a.features, a.targets);
    D df = a, dm = a, dv = a;
    if (a.size() > 0) {
      const auto i = static_cast<Eigen::Index>(rng.range(0, static_cast<int>(a.size()) - 1));
      df.features[static_cast<std::size_t>(i)].key += 1;
      dm.targets.mean[i] += 0.5;
      dv.targets.covariance.diagonal()[i] += 0.5;
    }
    step({{"op", j("create")}, {"features", arr(f)}, {"mean", jv(c.targets.mean)}, {"var", jv(c.targets.covariance.diagonal())}, {"size", j(c.size())},
          {"equal_to_self", j(c == a)}, {"equal_to_changed_feature", j(df == a)}, {"equal_to_changed_mean", j(dm == a)}, {"equal_to_changed_var", j(dv == a)}});
  }
  template <typename S> void take(const std::vector<int> &idx_) {
    std::vector<S> idx;
    for (int i : idx_)
      idx.push_back(static_cast<S>(i));
    const D out = rng.coin() ? a.subset(idx) : al::subset(a, idx);
    step({{"op", j("subset")}, {"idx", j(idx_)}, {"out", rows(out)}, {"source", rows(a)}});
    a = out;
  }
  void subset(const std::vector<int> &idx) {
    if (rng.coin())
      take<std::size_t>(idx);
    else
      take<int>(idx);
  }
  void filter(const std::set<int> &keep) {
    const D out = al::filter(a, [&](const F &f) { return keep.count(f.key) > 0; });
    step({{"op", j("filter")}, {"keep", j(keep)}, {"out", rows(out)}, {"source", rows(a)}});
    a = out;
  }
  void deduplicate() {
    const D out = al::deduplicate(a);
    step({{"op", j("deduplicate")}, {"out", rows(out)}, {"source", rows(a)}});
    a = out;
  }
  void regroup(const std::vector<int> &table) {
    const auto groups = a.group_by([&](const F &f) { return table[static_cast<std::size_t>(f.key - 1)]; }).groups();
    std::vector<J> g;
    for (const auto &kv : groups)
      g.push_back(arr({j(kv.first), rows(kv.second)}));
    const D out = groups.combine();
    step({{"op", j("regroup")}, {"key", key_table(table)}, {"groups", arr(g)}, {"out", rows(out)}});
    a = out;
  }
  void concatenate() {
    const D out = al::concatenate_datasets(a, b);
    step({{"op", j("concatenate")}, {"out", rows(out)}, {"source", rows(a)}});
    a = out;
  }
  void concatenate_many() {
    std::vector<D> parts;
    for (int k = rng.size(0, 4, 40, 20); k-- > 0;)
      parts.push_back(rng.coin() ? a : rng.coin() ? b : make<F>({rng.range(1, kKeys)}, rng.coin()));
    std::vector<J> p;
    for (const auto &d : parts)
      p.push_back(rows(d));
    const D out = al::concatenate_datasets(parts);
    step({{"op", j("concatenate_many")}, {"parts", arr(p)}, {"out", rows(out)}});
    if (static_cast<int>(out.size()) < most)
      a = out;
    else
      step({{"op", j("start")}, {"a", rows(a)}, {"b", rows(b)}});
  }
  void align(bool custom, const std::vector<int> &table) {
    if (custom) {
      al::align_datasets(&a, &b, [&](const F &x, const F &y) { return table[static_cast<std::size_t>(x.key - 1)] == table[static_cast<std::size_t>(y.key - 1)]; });
      step({{"op", j("align")}, {"key", key_table(table)}, {"a", rows(a)}, {"b", rows(b)}});
    } else {
      std::vector<int> id;
      for (int k = 1; k <= kKeys; ++k)
        id.push_back(k);
      al::align_datasets(&a, &b);
      step({{"op", j("align")}, {"key", key_table(id)}, {"a", rows(a)}, {"b", rows(b)}});
    }
  }
  void swap() {
    std::swap(a, b);
    step({{"op", j("swap")}});
  }
  void types() {
    std::vector<G> gs;
    for (const auto &f : b.features)
      gs.push_back({f.key});
    al::RegressionDataset<G> bg(gs, b.targets);
    using FG = mapbox::util::variant<F, G>;
    using HG = mapbox::util::variant<H, G>;
    std::vector<FG> vfg(gs.begin(), gs.end());
    al::RegressionDataset<FG> bv(vfg, b.targets);
    std::vector<HG> vhg(gs.begin(), gs.end());
    al::RegressionDataset<HG> bh(vhg, b.targets);
    std::vector<FG> af(a.features.begin(), a.features.end());
    al::RegressionDataset<FG> av(af, a.targets);
    auto log = [&](const char *kind, const J &out) { step({{"op", j("concatenate_types")}, {"kind", j(kind)}, {"tag_a", j("F")}, {"tag_b", j("G")}, {"out", out}}); };
    log("two types", trows(al::concatenate_datasets(a, bg)));
    log("type and variant holding it", trows(al::concatenate_datasets(a, bv)));
    log("type and other variant", trows(al::concatenate_datasets(a, bh)));
    log("variant and type", trows(al::concatenate_datasets(av, bg)));
    log("same variant", trows(al::concatenate_datasets(av, bv)));
  }
  void print() {
    D c = a;
    for (Eigen::Index i = 0; i < c.targets.mean.size(); ++i) { // exactly printable numbers
      c.targets.mean[i] = rng.range(-99, 99);
      const double s = rng.range(0, 30);
      c.targets.covariance.diagonal()[i] = s * s;
    }
    std::ostringstream os;
    os << c;
    std::istringstream is(os.str());
    std::vector<J> lines;
    std::string line;
    while (std::getline(is, line)) {
      std::istringstream ls(line);
      int key = -1;
      double m = 0, s = -1;
      std::string sep;
      ls >> key >> m >> sep >> s;
      lines.push_back(arr({j(key), j(m), j(s * s)}));
    }
    step({{"op", j("start")}, {"a", rows(c)}, {"b", rows(b)}});
    step({{"op", j("print")}, {"lines", arr(lines)}});
    step({{"op", j("start")}, {"a", rows(a)}, {"b", rows(b)}});
  }
};

void history(const json &in, Rng &rng) {
  label("history " + in.dump().substr(0, 200));
  Machine m{make<F>(in["a"].get<std::vector<int>>(), rng.coin()), make<F>(in["b"].get<std::vector<int>>(), rng.coin()), rng};
  m.begin();
  for (const auto &o_ : in["ops"]) {
    const std::string o = o_;
    const int n = static_cast<int>(m.a.size());
    std::vector<int> idx;
    if (o == "reverse") {
      for (int i = n; i-- > 0;)
        idx.push_back(i);
      m.subset(idx);
    } else if (o == "evens") {
      for (int i = 0; i < n; i += 2)
        idx.push_back(i);
      m.subset(idx);
    } else if (o == "twice") {
      for (int i = 0; i < 2 * n; ++i)
        idx.push_back(i % n);
      m.subset(idx);
    } else if (o == "deduplicate")
      m.deduplicate();
    else if (o == "filter")
      m.filter({2, 3});
    else if (o == "regroup")
      m.regroup({1, 0, 1, 0, 1, 0});
    else if (o == "concatenate")
      m.concatenate();
    else if (o == "swap")
      m.swap();
    else if (o == "align")
      m.align(false, {});
  }
  end_behaviour();
}

std::vector<int> keys(Rng &rng, bool distinct) {
  std::vector<int> k;
  if (distinct) {
    std::vector<int> all = {1, 2, 3, 4, 5, 6};
    rng.shuffle(all);
    all.resize(static_cast<std::size_t>(rng.range(0, 6)));
    return all;
  }
  for (int n = rng.range(0, 8); n-- > 0;)
    k.push_back(rng.range(1, kKeys));
  return k;
}

std::vector<int> many_keys(Rng &rng) {
  std::vector<int> k;
  for (int n = rng.range(20, 80); n-- > 0;)
    k.push_back(rng.range(1, kKeys));
  return k;
}

void vectors(Rng &rng) {
  auto ints = [&] {
    std::vector<int> v;
    for (int n = rng.size(0, 4, 150, 30); n-- > 0;)
      v.push_back(rng.range(-9, 9));
    return v;
  };
  const auto x = ints(), y = ints(), z = ints();
  single({{"op", j("concatenate_vectors")}, {"kind", j("int")}, {"xs", j(x)}, {"ys", j(y)}, {"out", j(al::concatenate(x, y))}});
  std::vector<std::vector<int>> parts = {x, y, z, x};
  for (int n = rng.size(0, 0, 60, 20); n-- > 0;)
    parts.push_back(rng.coin() ? y : std::vector<int>{n});
  single({{"op", j("concatenate_lists")}, {"parts", j(parts)}, {"out", j(al::concatenate(parts))}});
  Eigen::VectorXd ex(static_cast<Eigen::Index>(x.size())), ey(static_cast<Eigen::Index>(y.size()));
  for (Eigen::Index i = 0; i < ex.size(); ++i)
    ex[i] = rng.dyadic();
  for (Eigen::Index i = 0; i < ey.size(); ++i)
    ey[i] = rng.dyadic();
  single({{"op", j("concatenate_vectors")}, {"kind", j("Eigen")}, {"xs", jv(ex)}, {"ys", jv(ey)}, {"out", jv(al::concatenate(ex, ey))}});
}

int main(int argc, char **argv) {
  Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  for (const auto &in : read_inputs(args.in))
    if (args.thorough() ? rng.chance(1, 3) : rng.chance(1, 5))
      history(in, rng);
  for (int k = 0; k < args.scale(300, 4000); ++k) {
    label("random history " + std::to_string(k));
    const bool distinct = rng.coin();
    Machine m{make<F>(keys(rng, distinct), rng.coin()), make<F>(keys(rng, distinct), rng.coin()), rng};
    if (k % 20 == 3) { // far larger ones
      m.most = 150;
      m.a = make<F>(many_keys(rng), rng.coin());
      if (rng.coin())
        m.b = make<F>(many_keys(rng), rng.coin());
    }
    m.begin();
    m.create();
    for (int n = rng.range(1, 8); n-- > 0;) {
      const int size = static_cast<int>(m.a.size());
      switch (rng.range(0, 10)) {
      case 0:
      case 1: {
        std::vector<int> idx;
        if (size > 0)
          for (int c = rng.range(0, m.most > 12 ? 120 : 8); c-- > 0;)
            idx.push_back(rng.range(0, size - 1));
        m.subset(idx);
        break;
      }
      case 2: m.filter({rng.range(1, kKeys), rng.range(1, kKeys), rng.range(1, kKeys), rng.range(1, kKeys)}); break;
      case 3: m.deduplicate(); break;
      case 4: {
        std::vector<int> t;
        for (int i = 0; i < kKeys; ++i)
          t.push_back(rng.range(0, 3));
        m.regroup(t);
        break;
      }
      case 5:
        if (size < m.most)
          m.concatenate();
        break;
      case 6: m.concatenate_many(); break;
      case 7: m.swap(); break;
      case 8: {
        std::vector<int> t = {1, 2, 3, 4, 5, 6};
        if (rng.coin())
          for (auto &x : t)
            x = rng.range(1, 6);
        if (size * static_cast<int>(m.b.size()) < (m.most > 12 ? 5000 : 80))
          m.align(rng.coin(), t);
        break;
      }
      case 9: m.types(); break;
      default: m.print();
      }
    }
    m.create();
    end_behaviour();
    vectors(rng);
  }
  return finish();
}
