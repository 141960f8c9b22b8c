#define VERIF_EIGEN
#include <albatross/Indexing>
#include <mutex>
#include "common.hpp"
#include "input.hpp"
using namespace verif;
using namespace albatross;
using Data = RegressionDataset<int>;
using nlohmann::json;

template <typename K> struct Key;
template <> struct Key<int> { static int of(int r) { return 5 * r - 9; } };
template <> struct Key<std::string> {
  static std::string of(int r) {
    static const std::vector<std::string> names = {"", "10", "2", "B", "a", "ab", "b", "c"};
    return r < 8 ? names.at(static_cast<std::size_t>(r)) : std::string(static_cast<std::size_t>(r - 7), 'd');
  }
};
template <> struct Key<double> { static double of(int r) { return r * 0.25 - 1; } };
template <typename K> int rank(const K &k) {
  for (int r = 0; r < 80; ++r)
    if (Key<K>::of(r) == k)
      return r;
  return -1;
}
// ---- value types: made from an int, logged, and transformed
template <typename V> struct Val;
template <> struct Val<int> {
  static int make(int v) { return v; }
  static J log(int v) { return j(v); }
  static int next(int v) { return 3 * v + 1; }
};
template <> struct Val<double> {
  static double make(int v) { return v; }
  static J log(double v) { return j(static_cast<int>(v)); }
  static double next(double v) { return v - 4; }
};
template <> struct Val<bool> {
  static bool make(int v) { return v % 2 == 1; }
  static J log(bool v) { return j(v ? 1 : 0); }
  static bool next(bool v) { return !v; }
};
template <> struct Val<std::vector<int>> {
  static std::vector<int> make(int v) {
    std::vector<int> o;
    for (int i = 0; i < v % 4; ++i)
      o.push_back(10 * v + i);
    return o;
  }
  static J log(const std::vector<int> &v) { return j(v); }
  static std::vector<int> next(std::vector<int> v) {
    v.push_back(static_cast<int>(v.size()));
    return v;
  }
};
template <> struct Val<Eigen::VectorXd> {
  static Eigen::VectorXd make(int v) {
    const auto x = Val<std::vector<int>>::make(v);
    Eigen::VectorXd o(static_cast<Eigen::Index>(x.size()));
    for (std::size_t i = 0; i < x.size(); ++i)
      o[static_cast<Eigen::Index>(i)] = x[i];
    return o;
  }
  static J log(const Eigen::VectorXd &v) { return j(std::vector<int>(v.data(), v.data() + v.size())); }
  static Eigen::VectorXd next(const Eigen::VectorXd &v) {
    Eigen::VectorXd o(v.size() + 1);
    o << v, 8;
    return o;
  }
};
template <> struct Val<Data> {
  static Data make(int v) {
    const auto f = Val<std::vector<int>>::make(v);
    const Eigen::VectorXd y = Val<Eigen::VectorXd>::make(v).array() + 1000.;
    Eigen::VectorXd s = y * 2;
    return Data(f, MarginalDistribution(y, s));
  }
  static J log(const Data &d) {
    std::vector<J> o;
    for (std::size_t i = 0; i < d.size(); ++i)
      o.push_back(arr({j(d.features[i]), j(static_cast<int>(d.targets.mean[static_cast<Eigen::Index>(i)])), j(static_cast<int>(d.targets.covariance.diagonal()[static_cast<Eigen::Index>(i)]))}));
    return arr(o);
  }
  static Data next(const Data &d) {
    std::vector<std::size_t> idx;
    for (std::size_t i = d.size(); i > 0; --i)
      idx.push_back(i - 1);
    return subset(d, idx);
  }
};

template <typename M> J pairs(const M &m) {
  std::vector<J> o;
  for (const auto &kv : m)
    o.push_back(arr({j(rank(kv.first)), Val<std::decay_t<decltype(kv.second)>>::log(kv.second)}));
  return arr(o);
}
template <typename P> J one(const P &p) { return arr({j(rank(p.first)), Val<std::decay_t<decltype(p.second)>>::log(p.second)}); }

template <typename V> struct is_number : std::integral_constant<bool, std::is_arithmetic<V>::value && !std::is_same<V, bool>::value> {};

template <typename K, typename V> struct Machine {
  Grouped<K, V> g;
  Rng &rng;
  ThreadPool &pool;

  J logv(const V &v) { return Val<V>::log(v); }
  template <typename T = V> std::enable_if_t<is_number<T>::value> special() {
    step({{"op", j("totals")}, {"sum", j(static_cast<double>(g.sum()))}, {"mean", j(static_cast<double>(g.mean()))}});
    if (g.size() > 0)
      step({{"op", j("extremes")}, {"min", one(g.min())}, {"max", one(g.max())}, {"min_key", j(rank(g.min_key()))}, {"max_key", j(rank(g.max_key()))},
            {"min_value", logv(g.min_value())}, {"max_value", logv(g.max_value())}});
    if (std::is_same<T, double>::value)
      combine_double();
  }
  template <typename T = V> std::enable_if_t<std::is_same<T, double>::value> combine_double() {
    step({{"op", j("combine")}, {"scalar", j(true)}, {"out", Val<Eigen::VectorXd>::log(combine(g))}});
    step({{"op", j("combine")}, {"scalar", j(true)}, {"out", Val<Eigen::VectorXd>::log(combine(g.get_map()))}});
  }
  template <typename T = V> std::enable_if_t<!std::is_same<T, double>::value> combine_double() {}
  template <typename T = V> std::enable_if_t<std::is_same<T, bool>::value> special() {
    step({{"op", j("bools")}, {"all", j(g.all())}, {"any", j(static_cast<bool>(g.any()))}});
  }
  template <typename T = V> std::enable_if_t<!std::is_arithmetic<T>::value> special() {
    if (g.size() > 0 || !std::is_same<T, Data>::value) {
      step({{"op", j("combine")}, {"scalar", j(false)}, {"out", logv(g.combine())}});
      step({{"op", j("combine")}, {"scalar", j(false)}, {"out", logv(combine(g.get_map()))}});
    }
  }

  void observe() {
    Grouped<K, V> other(g);
    if (other.size() > 0)
      other.erase(other.keys()[static_cast<std::size_t>(rng.range(0, static_cast<int>(other.size()) - 1))]);
    else
      other.emplace(Key<K>::of(1), Val<V>::make(3));
    std::vector<J> ks, vs;
    for (const auto &k : g.keys())
      ks.push_back(j(rank(k)));
    for (const auto &v : g.values())
      vs.push_back(logv(v));
    const Grouped<K, V> copy(g.get_map());
    step({{"op", j("observe")}, {"iterated", pairs(g)}, {"map", pairs(g.get_map())}, {"keys", arr(ks)}, {"values", arr(vs)}, {"size", j(g.size())},
          {"equal_to_copy", j(g == copy)}, {"equal_to_other", j(g == other)}});
    const int key = rng.range(0, 4);
    const auto it = g.find(Key<K>::of(key));
    const bool found = it != g.end();
    step({{"op", j("lookup")}, {"key", j(key)}, {"found", j(found)}, {"out", found ? logv(it->second) : j(0)}, {"at", found ? logv(g.at(Key<K>::of(key))) : j(0)}});
    if (g.size() > 0)
      step({{"op", j("ends")}, {"first_group", one(g.first_group())}, {"first_value", logv(g.first_value())}, {"last_value", logv(g.last_value())}});
    special();
  }

  // answers by key (arity 2) or by a function of the value (arity 1)
  void filter_by(const std::set<int> &kept, int arity, bool free_function, bool keep) {
    std::vector<J> calls;
    const J before = pairs(g);
    Grouped<K, V> out;
    if (arity == 2) {
      auto f = [&](const K &k, const V &v) {
        const bool a = kept.count(rank(k)) > 0;
        calls.push_back(arr({j(rank(k)), logv(v), j(a)}));
        return a;
      };
      out = free_function ? albatross::filter(g.get_map(), f) : g.filter(f);
    } else {
      auto f = [&](const V &v) {
        const std::string s = logv(v).s;
        const bool a = std::hash<std::string>()(s) % 2 == 0;
        calls.push_back(arr({logv(v), j(a)}));
        return a;
      };
      out = free_function ? albatross::filter(g.get_map(), f) : albatross::filter(g, f);
    }
    step({{"op", j("filter")}, {"arity", j(arity)}, {"calls", arr(calls)}, {"out", pairs(out)}, {"source", pairs(g)}, {"keep", j(keep)}});
    if (keep)
      g = out;
    (void)before;
  }
  void apply_by(int arity, int how, bool is_void, bool keep) {
    std::vector<J> calls;
    std::mutex mu;
    auto note = [&](const std::vector<J> &c) {
      std::lock_guard<std::mutex> l(mu);
      calls.push_back(arr(c));
    };
    auto f1 = [&](const V &v) {
      V r = Val<V>::next(v);
      note({logv(v), logv(r)});
      return r;
    };
    auto f2 = [&](const K &k, const V &v) {
      V r = rank(k) % 2 ? Val<V>::next(v) : v;
      note({j(rank(k)), logv(v), logv(r)});
      return r;
    };
    auto v1 = [&](const V &v) { note({logv(v), j(0)}); };
    auto v2 = [&](const K &k, const V &v) { note({j(rank(k)), logv(v), j(0)}); };
    static const char *hows[] = {"member", "map", "no pool", "pool", "pooled map"};
    Grouped<K, V> out;
    if (is_void) {
      if (arity == 1)
        switch (how) {
        case 0: g.apply(v1); break;
        case 1: albatross::apply(g.get_map(), v1); break;
        case 2: g.apply(v1, nullptr); break;
        case 3: g.apply(v1, &pool); break;
        default: albatross::apply(g.get_map(), v1, &pool);
        }
      else
        switch (how) {
        case 0: g.apply(v2); break;
        case 1: albatross::apply(g.get_map(), v2); break;
        case 2: g.apply(v2, nullptr); break;
        case 3: g.apply(v2, &pool); break;
        default: albatross::apply(g.get_map(), v2, &pool);
        }
    } else if (arity == 1)
      switch (how) {
      case 0: out = g.apply(f1); break;
      case 1: out = albatross::apply(g.get_map(), f1); break;
      case 2: out = g.apply(f1, nullptr); break;
      case 3: out = g.apply(f1, &pool); break;
      default: out = albatross::apply(g.get_map(), f1, &pool);
      }
    else
      switch (how) {
      case 0: out = g.apply(f2); break;
      case 1: out = albatross::apply(g.get_map(), f2); break;
      case 2: out = g.apply(f2, nullptr); break;
      case 3: out = g.apply(f2, &pool); break;
      default: out = albatross::apply(g, f2, &pool);
      }
    step({{"op", j("apply")}, {"arity", j(arity)}, {"how", j(hows[how])}, {"void", j(is_void)}, {"calls", arr(calls)}, {"out", pairs(out)}, {"source", pairs(g)}, {"keep", j(keep && !is_void)}});
    if (keep && !is_void)
      g = out;
  }
  void observers() {
    observe();
    std::set<int> kept{rng.range(0, 5), rng.range(0, 5)};
    if (rng.chance(1, 5)) // nearly all of them
      for (int q = 0; q < 80; ++q)
        if (!kept.count(q % 7))
          kept.insert(q);
    filter_by(kept, rng.range(1, 2), rng.coin(), false);
    apply_by(rng.range(1, 2), rng.chance(1, 8) ? rng.range(3, 4) : rng.range(0, 2), rng.coin(), false);
  }
  void one_op(const std::string &op, int key, int val, const std::set<int> &kept) {
    const K k = Key<K>::of(key);
    V v = Val<V>::make(val);
    const J lv = logv(v);
    if (op == "emplace") {
      if (rng.coin())
        g.emplace(k, v);
      else
        g.emplace(k, std::move(v));
      step({{"op", j(op)}, {"key", j(key)}, {"val", lv}});
    } else if (op == "set") {
      g[k] = v;
      step({{"op", j(op)}, {"key", j(key)}, {"val", lv}});
    } else if (op == "touch") {
      step({{"op", j(op)}, {"key", j(key)}, {"default", logv(V())}, {"out", logv(g[k])}});
    } else if (op == "erase") {
      step({{"op", j(op)}, {"key", j(key)}, {"out", j(g.erase(k))}});
    } else if (op == "filter") {
      filter_by(kept, 2, rng.coin(), true);
    } else
      apply_by(2, rng.range(0, 2), false, true);
  }
};

template <typename K, typename V> void random_history(int n, Rng &rng, ThreadPool &pool) {
  std::map<K, V> init;
  const bool large = rng.chance(1, 15); // some far larger containers
  const int top = large ? 79 : 7;
  if (large)
    n = std::min(n, 4);
  for (int m = rng.range(0, large ? 80 : 7); m-- > 0;)
    init[Key<K>::of(rng.range(0, top))] = Val<V>::make(rng.range(0, 9));
  const std::map<K, V> copy = init;
  Machine<K, V> m{rng.coin() ? Grouped<K, V>(copy) : Grouped<K, V>(std::move(init)), rng, pool};
  label("random history");
  step({{"op", j("make")}, {"out", pairs(copy)}});
  m.observers();
  for (; n-- > 0;) {
    switch (rng.range(0, 6)) {
    case 0: m.one_op("emplace", rng.range(0, top), rng.range(0, 9), {}); break;
    case 1: m.one_op("set", rng.range(0, top), rng.range(0, 9), {}); break;
    case 2: m.one_op("touch", rng.range(0, top), 0, {}); break;
    case 3: m.one_op("erase", rng.range(0, top), 0, {}); break;
    case 4: {
      std::set<int> kept;
      for (int q = large ? rng.range(0, 120) : 4; q-- > 0;)
        kept.insert(rng.range(0, top));
      m.filter_by(kept, rng.range(1, 2), rng.coin(), true);
      break;
    }
    default: m.apply_by(rng.range(1, 2), rng.range(0, 4), rng.chance(1, 3), true); break;
    }
    m.observers();
  }
  end_behaviour();
}
template <typename K, typename V> void history(const json &in, Rng &rng, ThreadPool &pool) {
  Machine<K, V> m{Grouped<K, V>(), rng, pool};
  label("history " + in.dump().substr(0, 200));
  for (const auto &o : in["ops"]) {
    m.one_op(o["op"], o.value("key", 0), o.value("val", 0), o.contains("kept") ? o["kept"].get<std::set<int>>() : std::set<int>());
    m.observe();
  }
  m.observers();
  end_behaviour();
}

// means do not depend on the range of the type of the values
template <typename V> void mean_of(const char *type, const std::vector<V> &pool, Rng &rng) {
  Grouped<int, V> g;
  std::vector<std::string> vals;
  for (int k = rng.size(1, 6, 100); k > 0; --k) {
    const V v = pool[static_cast<std::size_t>(rng.range(0, static_cast<int>(pool.size()) - 1))];
    g[k] = v;
    std::ostringstream s;
    s << std::setprecision(17) << +v;
    vals.push_back(s.str());
  }
  single({{"op", j("mean_of")}, {"type", j(type)}, {"vals", j(vals)}, {"out", j(static_cast<double>(g.mean()))}});
}

int main(int argc, char **argv) {
  Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  ThreadPool pool(3);
  int n = 0;
  const int keep_one_in = args.scale(3, 1);
  for (const auto &in : read_inputs(args.in)) {
    if (rng.range(1, keep_one_in) != 1)
      continue;
    switch (n++ % 6) {
    case 0: history<int, int>(in, rng, pool); break;
    case 1: history<std::string, double>(in, rng, pool); break;
    case 2: history<double, bool>(in, rng, pool); break;
    case 3: history<int, std::vector<int>>(in, rng, pool); break;
    case 4: history<int, Eigen::VectorXd>(in, rng, pool); break;
    case 5: history<std::string, Data>(in, rng, pool); break;
    }
  }
  for (int k = 0; k < args.scale(40, 600); ++k) {
    random_history<std::string, int>(rng.range(0, 12), rng, pool);
    random_history<int, double>(rng.range(0, 12), rng, pool);
    random_history<int, bool>(rng.range(0, 12), rng, pool);
    random_history<std::string, std::vector<int>>(rng.range(0, 12), rng, pool);
    random_history<double, Eigen::VectorXd>(rng.range(0, 12), rng, pool);
    random_history<int, Data>(rng.range(0, 12), rng, pool);
  }
  for (int k = 0; k < args.scale(15, 150); ++k) {
    mean_of<int>("int", {2147483647, 2147483646, -2147483647, 2000000000, 7, 0}, rng);
    mean_of<std::int64_t>("int64", {std::int64_t(1) << 62, (std::int64_t(1) << 62) + 1024, -(std::int64_t(1) << 62), 3}, rng);
    mean_of<std::uint8_t>("uint8", {255, 254, 200, 3, 0}, rng);
    mean_of<std::size_t>("size_t", {0, 1, std::size_t(1) << 63, 5}, rng);
    mean_of<float>("float", {1.5f, 16777216.f, 0.25f, -3.f}, rng);
    mean_of<double>("double", {1e308, 0.5, 1.7e308, 3e307}, rng);
  }
  return finish();
}
