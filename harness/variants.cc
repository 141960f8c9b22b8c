#define VERIF_EIGEN
#include <albatross/Common>
#include <albatross/Indexing>
#include <albatross/Dataset>
#include <albatross/utils/VariantUtils>
#include "common.hpp"
#include "input.hpp"
using namespace verif;
using namespace albatross;

struct P { // a user type without arithmetic meaning
  int a = -1;
  bool operator==(const P &o) const { return a == o.a; }
};
using Small = variant<int, std::string>;
using Big = variant<double, std::string, int, P>;
using One = variant<P>;

J tagged(int x) { return arr({j("i"), j(x)}); }
J tagged(const std::string &x) { return arr({j("s"), j(x)}); }
J tagged(double x) { return arr({j("d"), j(x)}); }
J tagged(const P &x) { return arr({j("p"), j(x.a)}); }
template <typename... T> J tagged(const variant<T...> &v) {
  J o;
  v.match([&](const auto &x) { o = tagged(x); });
  return o;
}
template <typename X> J all(const std::vector<X> &xs) {
  std::vector<J> o;
  for (const auto &x : xs)
    o.push_back(tagged(x));
  return arr(o);
}

template <typename T, typename V> void extract(const char *tag, const std::vector<V> &xs, Rng &rng) {
  const J before = all(xs);
  label(std::string("extract ") + tag + " from " + before.s.substr(0, 180));
  const auto out = extract_from_variants<T>(xs);
  single({{"op", j("extract")}, {"tag", j(tag)}, {"xs", before}, {"out", all(out)}, {"xs_after", all(xs)}});
  for (bool cov : {false, true}) {
    Eigen::VectorXd y(static_cast<Eigen::Index>(xs.size())), v(y.size());
    for (Eigen::Index i = 0; i < y.size(); ++i) {
      y[i] = rng.dyadic();
      v[i] = rng.dyadic(1, 64);
    }
    RegressionDataset<V> d(xs, cov ? MarginalDistribution(y, v) : MarginalDistribution(y));
    const auto e = extract_from_variants<T>(d);
    
    single({{"op", j("extract_dataset")}, {"tag", j(tag)}, {"xs", before}, {"y", jv(y)}, {"v", jv(cov ? v : Eigen::VectorXd(Eigen::VectorXd::Zero(v.size())))}, {"had_cov", j(cov)}, 
            {"out", all(e.features)}, {"mean", jv(e.targets.mean)}, 
            {"var", jv(e.targets.covariance.diagonal())}, {"xs_after", all(d.features)}});
  }
}
template <typename V, typename X> void wrap(const std::vector<X> &xs, Rng &rng) {
  const J before = all(xs);
  label("wrap " + before.s.substr(0, 180));
  single({{"op", j("wrap")}, {"xs", before}, {"out", all(to_variant_vector<V>(xs))}, {"xs_after", all(xs)}});
  std::vector<V> dst(static_cast<std::size_t>(rng.range(0, 6)));
  set_variants(xs, &dst);
  single({{"op", j("set_many")}, {"xs", before}, {"out", all(dst)}});
  for (const auto &x : xs) {
    V v;
    set_variant(x, &v);
    single({{"op", j("set")}, {"x", tagged(x)}, {"out", tagged(v)}});
  }
}

int main(int argc, char **argv) {
  Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  auto run = [&](const std::string &tags) {
    std::vector<Big> big;
    std::vector<Small> small;
    std::vector<int> is;
    std::vector<std::string> ss;
    std::vector<P> ps;
    std::vector<double> ds;
    for (char t : tags) {
      const int n = rng.range(-9, 9); // repeats on purpose
      if (t == 'i') { big.emplace_back(n); small.emplace_back(n); is.push_back(n); }
      if (t == 's') { const std::string s = n < 0 ? "" : std::string(1, char('a' + n)); big.emplace_back(s); small.emplace_back(s); ss.push_back(s); }
      if (t == 'd') { big.emplace_back(n * 0.5); ds.push_back(n * 0.5); }
      if (t == 'p') { big.emplace_back(P{n}); ps.push_back(P{n}); }
    }
    extract<int>("i", big, rng); extract<std::string>("s", big, rng); extract<double>("d", big, rng); extract<P>("p", big, rng);
    extract<int>("i", small, rng); extract<std::string>("s", small, rng);
    std::vector<One> ones(ps.begin(), ps.end());
    extract<P>("p", ones, rng);
    wrap<Big>(small, rng); wrap<Big>(is, rng); wrap<Big>(ss, rng); wrap<Small>(is, rng); wrap<Small>(ss, rng);
    wrap<Big>(ps, rng); wrap<Big>(ds, rng); wrap<Big>(big, rng); wrap<Big>(ones, rng);
  };
  for (const auto &in : read_inputs(args.in)) {
    std::string t;
    for (const auto &x : in["tags"])
      t += x.get<std::string>();
    run(t);
  }
  for (int n = 0; n < args.scale(120, 1500); ++n) {
    std::string t;
    const bool runs = rng.coin();
    char c = 'i';
    for (int m = rng.range(0, n % 20 == 19 ? 120 : 14); m-- > 0;) {
      if (!runs || rng.chance(1, 3))
        c = "isdp"[rng.range(0, 3)];
      t += c;
    }
    run(t);
  }
  return finish();
}
