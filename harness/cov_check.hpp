#pragma once
#include "kernels.hpp"

template <typename X> struct TypeName;
template <> struct TypeName<double> { static const char *n() { return "d"; } };
template <> struct TypeName<Eigen::VectorXd> { static const char *n() { return "v"; } };
template <> struct TypeName<Site> { static const char *n() { return "s"; } };
template <typename X> struct IsPlain : std::false_type {};
template <> struct IsPlain<double> : std::true_type {};
template <> struct IsPlain<Eigen::VectorXd> : std::true_type {};
template <> struct IsPlain<Site> : std::true_type {};

template <typename C, typename X, typename Y> void pair_of(const C &cov, Rng &rng, int n, bool full) {
  if (full) {
    if constexpr (IsPlain<X>::value && IsPlain<Y>::value)
      step({{"op", j("applies")}, {"tx", j(TypeName<X>::n())}, {"ty", j(TypeName<Y>::n())}, {"out", j(bool(al::has_valid_caller<C, X, Y>::value))}});
  }
  if constexpr (al::has_valid_caller<C, X, Y>::value) {
    for (int i = 0; i < n; ++i) {
      const X x = Gen<X>::make(rng);
      const Y y = Gen<Y>::make(rng);
      step({{"op", j("cov")}, {"x", jf(x)}, {"y", jf(y)}, {"out", j(double(cov(x, y)))}});
      if constexpr (std::is_same<X, Y>::value)
        step({{"op", j("cov")}, {"x", jf(x)}, {"y", jf(x)}, {"out", j(double(cov(x, x)))}});
    }
    if constexpr (std::is_same<X, double>::value && std::is_same<Y, double>::value) { // close, far, small and large
      const double x = Gen<X>::make(rng), d = Gen<X>::make(rng);
      for (const auto &at : {std::make_pair(x, x + std::ldexp(d, -20)), std::make_pair(std::ldexp(x, -16), std::ldexp(d, -18)), std::make_pair(x, 16. * d), std::make_pair(std::ldexp(x, 9), d)})
        step({{"op", j("cov")}, {"x", jf(at.first)}, {"y", jf(at.second)}, {"out", j(double(cov(at.first, at.second)))}});
    }
  }
}
template <typename C, typename X> void trace_of(const C &cov, Rng &rng) {
  const X x = Gen<X>::make(rng), y = Gen<X>::make(rng);
  std::vector<J> rows;
  for (const auto &cv : cov.call_trace().get_trace(x, y)) {
    std::string n = cv.call_name, op;
    int depth = 0;
    while (n.size() >= 4 && n[0] == ' ' && n[1] == '|') {
      ++depth;
      op = n[2] == ' ' ? "" : std::string(1, n[2]);
      n = n.substr(4);
    }
    rows.push_back(arr({j(depth), j(op), j(n), j(cv.value.substr(static_cast<std::size_t>(4 * depth)))}));
  }
  step({{"op", j("trace")}, {"x", jf(x)}, {"y", jf(y)}, {"rows", j(rows)}});
}
template <typename C, typename X> void arrays(const C &cov, Rng &rng, ThreadPool *pool, int threads) {
  if constexpr (al::has_valid_caller<C, X, X>::value) {
    const auto xs = features<X>(rng.size(0, 7, 44, 60), rng), ys = features<X>(rng.size(0, 7, 44, 60), rng);
    step({{"op", j("gram")}, {"threads", j(threads)}, {"xs", jfs(xs)}, {"out", jm(cov(xs, pool))}});
    step({{"op", j("matrix")}, {"threads", j(threads)}, {"xs", jfs(xs)}, {"ys", jfs(ys)}, {"out", jm(cov(xs, ys, pool))}});
    step({{"op", j("diag")}, {"xs", jfs(xs)}, {"out", jv(cov.diagonal(xs))}});
  }
}
inline J jparams(const al::ParameterStore &p) {
  std::vector<J> o;
  for (const auto &kv : p)
    o.push_back(arr({j(kv.first), j(kv.second.value)}));
  return j(o);
}
template <typename C> void all_pairs(const C &c, Rng &rng, int n, bool full) {
  using M_d = al::Measurement<double>;
  using M_v = al::Measurement<Eigen::VectorXd>;
  using M_s = al::Measurement<Site>;
  using V = Eigen::VectorXd;
  pair_of<C, double, double>(c, rng, n, full);
  pair_of<C, V, V>(c, rng, n, full);
  pair_of<C, Site, Site>(c, rng, n, full);
  pair_of<C, double, V>(c, rng, n, full);
  pair_of<C, V, double>(c, rng, n, full);
  pair_of<C, double, Site>(c, rng, n, full);
  pair_of<C, Site, double>(c, rng, n, full);
  pair_of<C, V, Site>(c, rng, n, full);
  pair_of<C, Site, V>(c, rng, n, full);
  pair_of<C, M_d, M_d>(c, rng, n, full);
  pair_of<C, M_v, M_v>(c, rng, n, full);
  pair_of<C, M_s, M_s>(c, rng, n, full);
  pair_of<C, M_d, double>(c, rng, n, full);
  pair_of<C, double, M_d>(c, rng, n, full);
  pair_of<C, M_s, Site>(c, rng, n, full);
  pair_of<C, Site, M_d>(c, rng, n, full);
  pair_of<C, M_d, M_s>(c, rng, n, full);
  pair_of<C, M_s, M_d>(c, rng, n, full);
  pair_of<C, AnyF, AnyF>(c, rng, n, full);
  pair_of<C, AnyM, AnyM>(c, rng, n, full);
  pair_of<C, AnyF, AnyM>(c, rng, n, full);
  pair_of<C, AnyF, double>(c, rng, n, full);
  pair_of<C, Site, AnyF>(c, rng, n, full);
  pair_of<C, M_d, AnyM>(c, rng, n, full);
}
template <typename C> void exercise(const E<C> &e, Rng &rng, const Args &args, bool traced = true) {
  label("expression " + e.name);
  C c = e.cov;
  step({{"op", j("expr")}, {"expr", e.tree}});
  step({{"op", j("name")}, {"out", j(c.get_name())}});
  step({{"op", j("params")}, {"out", jparams(c.get_params())}});
  all_pairs(c, rng, args.scale(3, 12), true);
  for (int threads : {0, 1, 2, 3, 8}) {
    std::unique_ptr<ThreadPool> pool;
    if (threads > 0)
      pool = std::make_unique<ThreadPool>(static_cast<std::size_t>(threads));
    arrays<C, double>(c, rng, pool.get(), threads);
    arrays<C, Eigen::VectorXd>(c, rng, pool.get(), threads);
    arrays<C, AnyM>(c, rng, pool.get(), threads);
    arrays<C, AnyF>(c, rng, pool.get(), threads);
  }
  if (traced) {
    trace_of<C, double>(c, rng);
    trace_of<C, al::Measurement<double>>(c, rng);
    trace_of<C, Site>(c, rng);
  }
  end_behaviour();
  // parameters, one at a time, through the composition
  step({{"op", j("expr")}, {"expr", e.tree}});
  std::vector<std::string> names;
  for (const auto &kv : c.get_params())
    names.push_back(kv.first);
  rng.shuffle(names);
  for (const auto &n : names) {
    const double v = rng.dyadic(1, 24, 0.25);
    al::Parameter p = c.get_params().at(n);
    p.value = v;
    switch (rng.range(0, 3)) {
    case 0: c.set_param(n, p); break;
    case 1: c.set_param_value(n, v); break;
    case 2: {
      // bulk update with one value changed
      auto all = c.get_params();
      all.at(n).value = v;
      c.set_params(all);
      break;
    }
    default: c.set_param_values({{n, v}});
    }
    step({{"op", j("set")}, {"name", j(n)}, {"value", j(v)}});
    step({{"op", j("params")}, {"out", jparams(c.get_params())}});
    pair_of<C, double, double>(c, rng, 2, false);
    pair_of<C, Site, double>(c, rng, 1, false);
    pair_of<C, AnyM, AnyM>(c, rng, 3, false);
    const C copy = c; // copies own their parameters
    pair_of<C, AnyF, AnyF>(copy, rng, 2, false);
  }
  end_behaviour();
}
void exercise_a(Rng &rng, const Args &args);
void exercise_b(Rng &rng, const Args &args);
void exercise_c(Rng &rng, const Args &args);
void exercise_d(Rng &rng, const Args &args);
