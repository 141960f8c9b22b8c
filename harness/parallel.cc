// Replays begin/end schedules enumerated by MC_Parallel against the pooled
// helpers: the function applied to the elements is gated, so that which
// application begins and ends when is decided by the schedule.
#define VERIF_EIGEN
#include <albatross/SparseGP>
#include <albatross/Tune>
#include <albatross/utils/AsyncUtils>
#include <condition_variable>
#include <mutex>
#include <thread>
#include "common.hpp"
#include "input.hpp"
using namespace verif;
namespace al = albatross;

struct Elem {
  int i = 0, x = 0;
  bool operator==(const Elem &o) const { return i == o.i && x == o.x; }
  bool operator<(const Elem &o) const { return i < o.i; }
};
struct Failure : std::runtime_error {
  int i;
  explicit Failure(int i_) : std::runtime_error("element"), i(i_) {}
};
static int g_slow = 0; // schedules the code under test would not follow
struct Gate {
  std::mutex mu;
  std::condition_variable cv;
  std::vector<std::pair<char, int>> script;
  std::size_t pos = 0;
  bool follow = true, linger = false;
  std::set<int> fails;
  std::vector<Fields> log;
  std::map<int, int> effects;

  void at(char what, int i) {
    std::unique_lock<std::mutex> lock(mu);
    const auto mine = [&] { return !follow || pos >= script.size() || script[pos] == std::make_pair(what, i); };
    if (!cv.wait_for(lock, std::chrono::milliseconds(g_slow > 40 ? 2 : 40), mine)) {
      follow = false; // helpers may schedule as they like
      ++g_slow;
    }
    if (what == 'E' && linger && follow && pos + 1 >= script.size()) {
      lock.unlock(); // give a helper that does not wait the time to return
      std::this_thread::sleep_for(std::chrono::milliseconds(2));
      lock.lock();
    }
    log.push_back({{"op", j(what == 'B' ? "begin" : "end")}, {"i", j(i)}});
    ++pos;
    cv.notify_all();
  }
  int run(int i, int v) {
    at('B', i);
    struct AtEnd {
      Gate &g;
      int i;
      ~AtEnd() { g.at('E', i); }
    } guard{*this, i};
    if (fails.count(i))
      throw Failure(i);
    std::lock_guard<std::mutex> lock(mu);
    effects[i] = v;
    return v;
  }
};
struct Run {
  std::string kind;
  int n, threads;
  std::vector<std::pair<char, int>> script;
  std::vector<int> fails;
};

J outs(const std::vector<std::pair<int, J>> &o) {
  std::vector<J> v;
  for (const auto &p : o)
    v.push_back(arr({j(p.first), p.second}));
  return j(v);
}
const std::vector<std::string> kinds = {"vector value", "vector void", "vector bool", "map value", "map void", "map key value", "map key void",
                                        "grouped value", "grouped key value", "grouped void", "group_by value", "group_by key value", "apply_map value", "unordered value"};
bool has(const std::string &s, const char *w) { return s.find(w) != std::string::npos; }

void one(const Run &r, bool linger) {
  const bool keyed = has(r.kind, "key"), is_void = has(r.kind, "void"), boolean = has(r.kind, "bool"), is_vector = has(r.kind, "vector");
  std::vector<int> keys, xs;
  for (int i = 1; i <= r.n; ++i) {
    keys.push_back(is_vector ? i : 3 * i - 4);
    xs.push_back((i * 5) % 7);
  }
  label(r.kind);
  const auto gate = std::make_shared<Gate>();
  gate->script = r.script;
  gate->follow = !r.script.empty();
  gate->linger = linger;
  gate->fails = std::set<int>(r.fails.begin(), r.fails.end());
  auto pool = r.threads == 0 ? nullptr : std::make_unique<ThreadPool>(static_cast<std::size_t>(r.threads));
  step({{"op", j("call")}, {"kind", j(r.kind)}, {"n", j(r.n)}, {"threads", j(r.threads)}, {"fails", j(r.fails)}, {"keyed", j(keyed)}, {"boolean", j(boolean)}, {"void", j(is_void)}, {"keys", j(keys)}, {"xs", j(xs)}});
  std::vector<Elem> es;
  std::map<int, Elem> m;
  for (std::size_t i = 0; i < keys.size(); ++i) {
    es.push_back({static_cast<int>(i) + 1, xs[i]});
    m[keys[i]] = es.back();
  }
  const auto value = [gate](const Elem &e) { return gate->run(e.i, e.x * e.x + 1); };
  const auto nothing = [gate](const Elem &e) { gate->run(e.i, e.x * e.x + 1); };
  const auto flag = [gate](const Elem &e) { return gate->run(e.i, e.x * e.x + 1) % 3 == 0; };
  const auto key_value = [gate](const int &k, const Elem &e) { return gate->run(e.i, 100 * k + e.x); };
  const auto key_void = [gate](const int &k, const Elem &e) { gate->run(e.i, 100 * k + e.x); };
  std::vector<std::pair<int, J>> out;
  bool ok = true;
  int error = 0;
  const auto from_vector = [&](const auto &v) {
    int k = 0;
    for (const auto &x : v)
      out.push_back({++k, j(static_cast<typename std::decay_t<decltype(v)>::value_type>(x))});
  };
  const auto from_map = [&](const auto &v) {
    for (const auto &kv : v)
      out.push_back({kv.first, j(kv.second)});
  };
  const auto from_groups = [&](const auto &v) {
    for (const auto &kv : v)
      out.push_back({kv.first, j(kv.second)});
  };
  const auto grouped = [&] {
    al::Grouped<int, Elem> g;
    for (const auto &kv : m)
      g[kv.first] = kv.second;
    return g;
  };
  ThreadPool *p = pool.get();
  try {
    if (r.kind == "vector value")
      from_vector(al::apply(es, value, p));
    else if (r.kind == "vector void")
      al::apply(es, nothing, p);
    else if (r.kind == "vector bool")
      from_vector(al::apply(es, flag, p));
    else if (r.kind == "map value")
      from_map(al::apply(m, value, p));
    else if (r.kind == "apply_map value")
      from_map(al::apply_map(m, value, p));
    else if (r.kind == "unordered value") {
      // key order of the given map decides nothing but the order of the calls
      std::map<int, J> sorted;
      for (const auto &kv : al::apply_map(m, value, p))
        sorted[kv.first] = j(kv.second);
      for (const auto &kv : sorted)
        out.push_back(kv);
    } else if (r.kind == "map void")
      al::apply(m, nothing, p);
    else if (r.kind == "map key value")
      from_map(al::apply(m, key_value, p));
    else if (r.kind == "map key void")
      al::apply(m, key_void, p);
    else if (r.kind == "grouped value")
      from_groups(grouped().apply(value, p));
    else if (r.kind == "grouped key value")
      from_groups(grouped().apply(key_value, p));
    else if (r.kind == "grouped void")
      grouped().apply(nothing, p);
    else {
      const auto by = al::group_by(es, [&](const Elem &e) { return keys[static_cast<std::size_t>(e.i) - 1]; });
      if (r.kind == "group_by value")
        from_groups(by.apply([&](const std::vector<Elem> &g) { return value(g.at(0)); }, p));
      else
        from_groups(by.apply([&](const int &k, const std::vector<Elem> &g) { return key_value(k, g.at(0)); }, p));
    }
  } catch (const Failure &f) {
    ok = false;
    error = f.i;
  }
  {
    std::lock_guard<std::mutex> lock(gate->mu);
    if (ok && is_void)
      for (const auto &kv : gate->effects)
        out.push_back({keys[static_cast<std::size_t>(kv.first) - 1], j(kv.second)});
    if (ok)
      gate->log.push_back({{"op", j("return")}, {"ok", j(true)}, {"out", outs(out)}});
    else
      gate->log.push_back({{"op", j("return")}, {"ok", j(false)}, {"error", j(error)}});
  }
  pool.reset(); // whatever is left runs now
  for (const auto &f : gate->log)
    step(f);
  end_behaviour();
}

class Asym : public al::CovarianceFunction<Asym> {
public:
  std::string name() const { return "asym"; }
  double _call_impl(const double &x, const int &y) const { return 16. * x - y; }
};
class Sym : public al::CovarianceFunction<Sym> {
public:
  std::string name() const { return "sym"; }
  double _call_impl(const double &x, const double &y) const { return (x + 0.5) * (y + 0.5); }
};
struct Shared {
  std::atomic<int> done{0}, late{0}, calls{0};
  std::atomic<bool> returned{false};
};
class Throws : public al::CovarianceFunction<Throws> {
public:
  std::shared_ptr<Shared> shared = std::make_shared<Shared>();
  double bad = 0;
  std::string name() const { return "throws"; }
  double _call_impl(const double &x, const double &y) const {
    if (shared->returned)
      ++shared->late;
    ++shared->calls;
    if (x == bad || y == bad)
      throw Failure(1);
    std::this_thread::sleep_for(std::chrono::microseconds(300));
    if (shared->returned)
      ++shared->late;
    return x * y;
  }
};

void matrices(Rng &rng, const Args &args) {
  label("pooled matrices");
  const int max = args.scale(9, 24), maxw = args.scale(9, 17);
  for (int w = 2; w <= maxw; w += w < 5 ? 1 : 2) {
    ThreadPool pool(static_cast<std::size_t>(w));
    for (int n = 0; n <= max; ++n) {
      std::vector<double> xs;
      std::vector<int> ys;
      for (int i = 0; i < n; ++i)
        xs.push_back(rng.dyadic());
      single({{"op", j("gram")}, {"w", j(w)}, {"xs", j(xs)}, {"out", jm(Sym()(xs, &pool))}});
      for (int m : {0, 1, 2, n, 2 * n + 1}) {
        ys.clear();
        for (int i = 0; i < m; ++i)
          ys.push_back(rng.range(-99, 99));
        if (n > 0 && m > 0)
          single({{"op", j("cross")}, {"w", j(w)}, {"xs", j(xs)}, {"ys", j(ys)}, {"out", jm(Asym()(xs, ys, &pool))}});
      }
    }
  }
  // large enough for a partition to go wrong by rounding
  for (int w : {2, 3, 5, 7, 8, 16}) {
    ThreadPool pool(static_cast<std::size_t>(w));
    for (int n : {17, 31, 50, 64, 101}) {
      std::vector<double> xs;
      for (int i = 0; i < n; ++i)
        xs.push_back(rng.dyadic());
      single({{"op", j("same")}, {"what", j("covariance matrix")}, {"serial", jm(Sym()(xs))}, {"pooled", jm(Sym()(xs, &pool))}});
      std::vector<int> ys;
      for (int i = rng.pick(std::vector<int>{1, 3, 16, 40, 77, 130}); i > 0; --i)
        ys.push_back(rng.range(-99, 99));
      single({{"op", j("same")}, {"what", j("cross covariance matrix")}, {"serial", jm(Asym()(xs, ys))}, {"pooled", jm(Asym()(xs, ys, &pool))}});
      single({{"op", j("cross")}, {"w", j(w)}, {"xs", j(xs)}, {"ys", j(ys)}, {"out", jm(Asym()(xs, ys, &pool))}});
    }
  }
  for (int i = 0; i < args.scale(12, 60); ++i) {
    Throws cov;
    const int n = rng.range(4, 12);
    std::vector<double> xs;
    for (int k = 1; k <= n; ++k)
      xs.push_back(k);
    cov.bad = rng.range(1, n);
    bool thrown = false;
    {
      ThreadPool pool(static_cast<std::size_t>(rng.range(2, 5)));
      try {
        if (i % 2)
          cov(xs, &pool);
        else
          cov(xs, xs, &pool);
      } catch (const Failure &) {
        thrown = true;
      }
      cov.shared->returned = true;
    }
    single({{"op", j("throwing")}, {"thrown", j(thrown)}, {"late", j(cov.shared->late.load())}});
  }
}

void pooled_solvers(Rng &rng, const Args &args) {
  label("pooled solvers");
  const auto random = [&](int r, int c) {
    Eigen::MatrixXd m(r, c);
    for (int i = 0; i < r; ++i)
      for (int k = 0; k < c; ++k)
        m(i, k) = rng.dyadic(-16, 16);
    return m;
  };
  for (int it = 0; it < args.scale(20, 150); ++it) {
    ThreadPool pool(static_cast<std::size_t>(rng.range(2, 6)));
    al::BlockDiagonal d;
    const bool large = it % 8 == 5;
    const int blocks = large ? rng.range(8, 24) : rng.range(1, 6);
    int n = 0;
    for (int b = 0; b < blocks; ++b) {
      const int k = rng.range(1, large ? 8 : 3);
      const Eigen::MatrixXd L = random(k, k);
      d.blocks.push_back(L * L.transpose() + Eigen::MatrixXd::Identity(k, k));
      n += k;
    }
    const auto ldlt = d.ldlt();
    const Eigen::MatrixXd rhs = random(n, large ? rng.range(12, 40) : rng.range(1, 3));
    const auto same = [&](const char *what, const J &a, const J &b) { single({{"op", j("same")}, {"what", j(what)}, {"serial", a}, {"pooled", b}}); };
    same("block diagonal solve", jm(ldlt.solve(rhs)), jm(ldlt.solve(rhs, &pool)));
    same("block diagonal sqrt_solve", jm(ldlt.sqrt_solve(rhs)), jm(ldlt.sqrt_solve(rhs, &pool)));
    const Eigen::MatrixXd L = random(n, n);
    const Eigen::SerializableLDLT full(L * L.transpose() + Eigen::MatrixXd::Identity(n, n));
    std::vector<std::vector<std::size_t>> parts;
    for (int k = large ? rng.range(6, 40) : rng.range(0, 5); k > 0; --k) {
      parts.emplace_back();
      for (int i = 0; i < n; ++i)
        if (rng.coin())
          parts.back().push_back(static_cast<std::size_t>(i));
    }
    const auto jb = [](const std::vector<Eigen::MatrixXd> &v) {
      std::vector<J> o;
      for (const auto &m : v)
        o.push_back(jm(m));
      return j(o);
    };
    same("inverse blocks", jb(full.inverse_blocks(parts)), jb(full.inverse_blocks(parts, &pool)));
    std::vector<double> at;
    for (int i = large ? rng.range(7, 60) : rng.range(0, 6); i > 0; --i)
      at.push_back(rng.dyadic());
    const auto f = [](const std::vector<double> &v) {
      double s = 1;
      for (std::size_t i = 0; i < v.size(); ++i)
        s += (static_cast<double>(i) + 1) * v[i] * v[i];
      return s;
    };
    same("gradient", j(al::compute_gradient(f, at, f(at))), j(al::compute_gradient(f, at, f(at), &pool)));
    // a model with and without a pool
    auto model = al::gp_from_covariance(al::SquaredExponential<al::EuclideanDistance>(2., 1.) + al::IndependentNoise<double>(0.5));
    std::vector<double> xs;
    for (int i = 0, q = large ? rng.range(30, 90) : rng.range(1, 12); i < q; ++i)
      xs.push_back(i + rng.dyadic(0, 7));
    Eigen::VectorXd y = random(static_cast<int>(xs.size()), 1).col(0);
    const auto plain = model.fit(xs, y).predict(xs).joint();
    model.set_thread_pool(al::make_shared_thread_pool(static_cast<std::size_t>(rng.range(0, 5))));
    const auto pooled = model.fit(xs, y).predict(xs).joint();
    same("fit mean", jv(plain.mean), jv(pooled.mean));
    same("fit covariance", jm(plain.covariance), jm(pooled.covariance));
  }
  for (int asked = 0; asked < 6; ++asked) {
    const auto pool = al::make_shared_thread_pool(static_cast<std::size_t>(asked));
    single({{"op", j("pool")}, {"asked", j(asked)}, {"null", j(pool == nullptr)}, {"threads", j(al::get_thread_count(pool))}, {"hardware", j(std::max(1u, std::thread::hardware_concurrency()))}});
  }
}

int main(int argc, char **argv) {
  const Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  std::size_t at = 0;
  for (const auto &in : read_inputs(args.in)) {
    Run r;
    r.n = in.at("n").get<int>();
    r.threads = in.at("w").get<int>();
    r.fails = in.at("fails").get<std::vector<int>>();
    for (const auto &s : in.at("script"))
      r.script.push_back({s[0].get<std::string>()[0], s[1].get<int>()});
    // every schedule with a few of the helpers in turn, all of them over the run
    const std::size_t each = args.thorough() ? kinds.size() : 4;
    for (std::size_t k = 0; k < each; ++k) {
      r.kind = kinds[(at * each + at / kinds.size() + k) % kinds.size()];
      one(r, (at + k) % 4 == 0);
    }
    ++at;
  }
  // no pool, one thread, and pools left to themselves
  for (const auto &kind : kinds)
    for (int threads : {0, 1, 2, 3, 8})
      for (int n : {0, 1, 2, 5, args.scale(8, 20)})
        for (int f = 0; f < 3; ++f) {
          Run r;
          r.kind = kind;
          r.n = n;
          r.threads = threads;
          for (int i = 1; i <= n && f > 0; ++i)
            if (rng.chance(1, 3))
              r.fails.push_back(i);
          one(r, false);
        }
  matrices(rng, args);
  pooled_solvers(rng, args);
  return finish();
}
