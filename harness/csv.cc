#define VERIF_EIGEN
#include "common.hpp"
#include "input.hpp"
#include <albatross/Core>
#include <albatross/Dataset>
#include <albatross/GP>
#include <albatross/Indexing>
#include <albatross/Samplers>
#include <albatross/utils/CsvUtils>
#include <cereal/types/string.hpp>
#include <cereal/types/utility.hpp>
#include <cereal/types/vector.hpp>
namespace al = albatross;
using namespace verif;
static const double inf = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN();

// ------------------------------------------------------------------- features
struct Tree {
  bool leaf = false;
  std::string type, text;
  std::vector<std::pair<std::string, Tree>> children;
  template <typename Archive> void serialize(Archive &ar) {
    for (auto &c : children) {
      if (!c.second.leaf)
        ar(cereal::make_nvp(c.first, c.second));
      else if (c.second.type == "number") {
        int v = std::stoi(c.second.text);
        ar(cereal::make_nvp(c.first, v));
      } else
        ar(cereal::make_nvp(c.first, c.second.text));
    }
  }
};
static J jleaf(const std::string &type, const J &v) { return obj({{"k", j("leaf")}, {"t", j(type)}, {"v", v}}); }
static J jnamed(const std::string &name, const std::string &type, const J &v) { return obj({{"k", j("leaf")}, {"n", j(name)}, {"t", j(type)}, {"v", v}}); }
static J jchild(const std::string &name, const J &x) { return obj({{"n", j(name)}, {"x", x}}); }
static J jnode(const std::vector<J> &c) { return obj({{"k", j("node")}, {"c", arr(c)}}); }
static J jtree(const Tree &t) {
  if (t.leaf)
    return jleaf(t.type, j(t.text));
  std::vector<J> c;
  for (const auto &x : t.children)
    c.push_back(jchild(x.first, jtree(x.second)));
  return jnode(c);
}
static Tree parse(const Json &x) {
  Tree t;
  if (x["k"] == "leaf") {
    t.leaf = true;
    t.type = x["t"].get<std::string>();
    t.text = x["v"].get<std::string>();
  } else
    for (const auto &c : x["c"])
      t.children.emplace_back(c["n"].get<std::string>(), parse(c["x"]));
  return t;
}
static const std::vector<std::string> texts = {"x", "", "two words", "a,b", "say \"so\"", "\"", ",", "l1\nl2", "<&>", "a;b", "1.5", "tab\tbed", "'", " ", "\t", "\n", " x ", "  \""};
static Tree random_tree(Rng &r, int depth) {
  Tree t;
  if (depth == 0 || r.chance(2, 5)) {
    t.leaf = true;
    t.type = r.coin() ? "number" : "text";
    t.text = t.type == "number" ? std::to_string(r.range(-100, 100)) : r.pick(texts);
    return t;
  }
  const int n = r.size(0, 4, 12, 40);
  std::vector<std::string> names = {"a", "b", "c", "dd", "e_1", "f", "g", "h", "i2", "jj", "k", "l"};
  r.shuffle(names);
  for (int i = 0; i < n; ++i)
    t.children.emplace_back(names[static_cast<std::size_t>(i)], random_tree(r, depth - 1));
  return t;
}
struct Inner {
  double x;
  std::string s;
  template <typename Archive> void serialize(Archive &ar) { ar(CEREAL_NVP(x), CEREAL_NVP(s)); }
};
struct Rich {
  int i;
  double d;
  bool b;
  std::vector<double> v;
  Inner inner;
  std::vector<Inner> list;
  std::pair<int, double> pair;
  long *sometimes = nullptr;
  template <typename Archive> void save(Archive &ar) const {
    ar(CEREAL_NVP(i), CEREAL_NVP(d), CEREAL_NVP(b), CEREAL_NVP(v), CEREAL_NVP(inner), CEREAL_NVP(list), CEREAL_NVP(pair));
    if (sometimes)
      ar(cereal::make_nvp("sometimes", *sometimes));
  }
  template <typename Archive> void load(Archive &) {}
};
struct Custom {
  double a, b;
  bool extra;
};
inline std::map<std::string, std::string> to_map(const Custom &c) {
  std::map<std::string, std::string> m;
  m["sum"] = std::to_string(c.a + c.b);
  m["label"] = c.a > c.b ? "more" : "less";
  if (c.extra)
    m["z_extra"] = "yes,\"it is\"";
  return m;
}
static J jf(const Tree &t) { return jtree(t); }
static J jinner(const Inner &i) { return jnode({jchild("x", jleaf("number", j(i.x))), jchild("s", jleaf("text", j(i.s)))}); }
static J jf(const Rich &f) {
  std::vector<J> v, l;
  for (std::size_t k = 0; k < f.v.size(); ++k)
    v.push_back(jchild("value" + std::to_string(k), jleaf("number", j(f.v[k]))));
  for (std::size_t k = 0; k < f.list.size(); ++k)
    l.push_back(jchild("value" + std::to_string(k), jinner(f.list[k])));
  std::vector<J> c = {jchild("i", jleaf("number", j(std::to_string(f.i)))), jchild("d", jleaf("number", j(f.d))), jchild("b", jleaf("text", j(f.b ? "true" : "false"))),
                      jchild("v", jnode(v)), jchild("inner", jinner(f.inner)), jchild("list", jnode(l)),
                      jchild("pair", jnode({jchild("first", jleaf("number", j(std::to_string(f.pair.first)))), jchild("second", jleaf("number", j(f.pair.second)))}))};
  if (f.sometimes)
    c.push_back(jchild("sometimes", jleaf("number", j(std::to_string(*f.sometimes)))));
  return jnode(c);
}
static J jf(const Custom &c) {
  std::vector<J> n = {jchild("sum", jleaf("fixed", j(c.a + c.b))), jchild("label", jleaf("text", j(c.a > c.b ? "more" : "less")))};
  if (c.extra)
    n.push_back(jchild("z_extra", jleaf("text", j("yes,\"it is\""))));
  return jnode(n);
}
static J jf(double x) { return jnamed("feature", "fixed", j(x)); }
static J jf(int x) { return jnamed("value0", "number", j(std::to_string(x))); }
static J jf(const std::string &x) { return jnamed("value0", "text", j(x)); }
static double value(Rng &r) {
  switch (r.range(0, 9)) {
  case 0: return r.dyadic() * 1e-7;
  case 1: return r.dyadic() * 1e9;
  case 2: return r.dyadic() / 3.;
  case 3: return r.pick(std::vector<double>{nan_, inf, -inf, 0., -0., 1e15, -1e-12});
  default: return r.dyadic();
  }
}
static void make(Rng &r, Tree *t) {
  do
    *t = random_tree(r, 3);
  while (t->leaf);
}
static void make(Rng &r, double *x) { *x = value(r); }
static void make(Rng &r, int *x) { *x = r.range(-50, 50); }
static void make(Rng &r, std::string *x) { *x = r.pick(texts); }
static void make(Rng &r, Inner *x) { *x = {r.dyadic() / 7., r.pick(texts)}; }
static void make(Rng &r, Custom *x) { *x = {r.dyadic(), r.dyadic(), r.coin()}; }
static void make(Rng &r, Rich *x) {
  static long longs[4] = {5, -7, 1234567, 0};
  x->i = r.range(-9, 9);
  x->d = r.dyadic() / 3.;
  x->b = r.coin();
  x->v.resize(static_cast<std::size_t>(r.range(0, 3)));
  for (auto &e : x->v)
    e = r.dyadic() * 1e-3;
  make(r, &x->inner);
  x->list.resize(static_cast<std::size_t>(r.range(0, 2)));
  for (auto &e : x->list)
    make(r, &e);
  x->pair = {r.range(0, 5), r.dyadic()};
  x->sometimes = r.coin() ? &longs[r.range(0, 3)] : nullptr;
}

// ----------------------------------------------------------------------- text
static std::vector<std::vector<std::string>> cells(const std::string &text) {
  std::vector<std::vector<std::string>> lines;
  std::vector<std::string> line;
  std::string cell;
  bool quoted = false, open = false;
  for (std::size_t i = 0; i < text.size(); ++i) {
    const char c = text[i];
    open = true;
    if (quoted) {
      if (c == '"' && i + 1 < text.size() && text[i + 1] == '"') {
        cell += '"';
        ++i;
      } else if (c == '"')
        quoted = false;
      else
        cell += c;
    } else if (c == '"' && cell.empty())
      quoted = true;
    else if (c == ',') {
      line.push_back(cell);
      cell.clear();
    } else if (c == '\n') {
      line.push_back(cell);
      cell.clear();
      lines.push_back(line);
      line.clear();
      open = false;
    } else
      cell += c;
  }
  if (open) {
    line.push_back(cell);
    lines.push_back(line);
  }
  return lines;
}
static J jtext(const std::string &text) {
  std::vector<J> o;
  for (const auto &l : cells(text))
    o.push_back(j(l));
  return arr(o);
}
// A stream that collects what is written and can not be moved backwards.
struct Sink : std::streambuf {
  std::string s;
  int overflow(int c) override {
    if (c != EOF)
      s += char(c);
    return c;
  }
  std::streamsize xsputn(const char *p, std::streamsize n) override {
    s.append(p, static_cast<std::size_t>(n));
    return n;
  }
};
struct Out { // where tables go: a string, a file or a pipe-like sink
  std::ostringstream str;
  Sink sink;
  std::ostream pipe{&sink};
  bool piped;
  explicit Out(bool p) : piped(p) {}
  std::ostream &os() { return piped ? pipe : static_cast<std::ostream &>(str); }
  std::string text() const { return piped ? sink.s : str.str(); }
};

template <typename F> struct Table {
  al::RegressionDataset<F> data;
  al::MarginalDistribution pred;
};
static std::map<std::string, std::string> metadata(Rng &r, const std::string &prefix) {
  std::map<std::string, std::string> m;
  for (int i = r.range(0, 3) - 1; i > 0; --i)
    m[prefix + std::to_string(r.range(0, 3))] = r.pick(texts);
  return m;
}
static Eigen::VectorXd values(Rng &r, std::size_t n) {
  Eigen::VectorXd x(static_cast<Eigen::Index>(n));
  for (auto &e : x)
    e = value(r);
  return x;
}
template <typename F> static Table<F> table(Rng &r, const std::vector<F> &fs) {
  const std::size_t n = fs.size();
  al::MarginalDistribution y(values(r, n), values(r, n)), p(values(r, n), values(r, n));
  al::RegressionDataset<F> d(fs, y);
  d.metadata = metadata(r, "meta");
  p.metadata = metadata(r, "model");
  return {d, p};
}
template <typename F, typename P> static J jset(const al::RegressionDataset<F> &d, const P &p, const Eigen::VectorXd &pv) {
  std::vector<J> fs;
  for (const auto &f : d.features)
    fs.push_back(jf(f));
  return obj({{"features", arr(fs)}, {"target", jv(d.targets.mean)}, {"target_variance", jv(d.targets.covariance.diagonal())},
              {"prediction", jv(p.mean)}, {"prediction_variance", jv(pv)}, {"metadata", j(d.metadata)}, {"prediction_metadata", j(p.metadata)}});
}
template <typename F> static J jset(const Table<F> &t) { return jset(t.data, t.pred, t.pred.covariance.diagonal()); }
static void log_table(const std::string &form, const std::vector<J> &sets, bool header, const std::vector<std::string> &columns, const std::vector<std::string> &order, Out &o) {
  const std::string t = o.text();
  step({{"op", j("table")}, {"form", j(form)}, {"sets", arr(sets)}, {"header", j(header)}, {"columns", j(columns)}, {"order", j(order)},
        {"good", j(o.os().good())}, {"closed", j(t.empty() || t.back() == '\n')}, {"text", jtext(t)}});
}
template <typename F> static void write_some(Rng &r, Out &o, const std::vector<Table<F>> &ts) {
  const auto &t = ts.front();
  const auto order = al::get_column_names(t.data, t.pred);
  switch (r.range(0, 6)) {
  case 0: {
    al::write_to_csv(o.os(), t.data, t.pred);
    log_table("with predictions", {jset(t)}, true, {}, order, o);
    break;
  }
  case 1: {
    al::write_to_csv(o.os(), t.data, t.pred, false);
    log_table("without header", {jset(t)}, false, {}, order, o);
    break;
  }
  case 2: { // some of the columns, another one, in any order
    auto cols = order;
    cols.push_back("unknown");
    r.shuffle(cols);
    cols.resize(static_cast<std::size_t>(r.range(1, static_cast<int>(cols.size()))));
    al::write_to_csv(o.os(), t.data, t.pred, cols);
    log_table("chosen columns", {jset(t)}, false, cols, order, o);
    break;
  }
  case 3: {
    const Eigen::Index n = t.data.targets.mean.size();
    const bool header = r.coin();
    al::MarginalDistribution zero(Eigen::VectorXd::Zero(n));
    const auto own = al::get_column_names(t.data, zero);
    if (header && r.coin())
      al::write_to_csv(o.os(), t.data);
    else
      al::write_to_csv(o.os(), t.data, header);
    log_table("without predictions", {jset(t.data, zero, zero.covariance.diagonal())}, header, {}, own, o);
    break;
  }
  case 4: { // joint predictions show their variances
    const Eigen::Index n = t.data.targets.mean.size();
    Eigen::MatrixXd c(n, n);
    for (Eigen::Index a = 0; a < n; ++a)
      for (Eigen::Index b = 0; b <= a; ++b)
        c(a, b) = c(b, a) = value(r);
    al::JointDistribution p(t.pred.mean, c);
    p.metadata = t.pred.metadata;
    al::write_to_csv(o.os(), t.data, p);
    log_table("with joint predictions", {jset(t.data, p, c.diagonal())}, true, {}, al::get_column_names(t.data, p), o);
    break;
  }
  default: {
    std::vector<al::RegressionDataset<F>> ds;
    std::vector<al::MarginalDistribution> ps;
    std::vector<J> js;
    std::set<std::string> names;
    for (const auto &x : ts) {
      ds.push_back(x.data);
      ps.push_back(x.pred);
      js.push_back(jset(x));
      for (const auto &n : al::get_column_names(x.data, x.pred))
        names.insert(n);
    }
    al::write_to_csv(o.os(), ds, ps);
    log_table("several data sets", js, true, {}, std::vector<std::string>(names.begin(), names.end()), o);
  }
  }
}
template <typename F> static void tables(Rng &r, const std::string &what, int reps, const std::function<F(Rng &)> &gen) {
  for (int rep = 0; rep < reps; ++rep) {
    label("tables of " + what + " " + std::to_string(rep));
    Out o(r.chance(1, 3));
    const int writes = r.range(1, 3);
    for (int w = 0; w < writes; ++w) {
      std::vector<Table<F>> ts;
      for (int k = r.range(1, 3); k > 0; --k) {
        std::vector<F> fs;
        for (int n = r.size(0, 4, 40, 40); n > 0; --n)
          fs.push_back(gen(r));
        ts.push_back(table(r, fs));
      }
      write_some(r, o, ts);
    }
    end_behaviour();
  }
}
template <typename F> static F made(Rng &r) {
  F f;
  make(r, &f);
  return f;
}
template <typename F> static void tables(Rng &r, const std::string &what, int reps) { tables<F>(r, what, reps, made<F>); }

static void matrices(Rng &r, int reps) {
  for (int rep = 0; rep < reps; ++rep) {
    label("matrix " + std::to_string(rep));
    Eigen::MatrixXd x(r.size(1, 4, 40, 15), r.size(1, 4, 40, 15));
    for (Eigen::Index a = 0; a < x.rows(); ++a)
      for (Eigen::Index b = 0; b < x.cols(); ++b)
        x(a, b) = value(r);
    Out o(r.coin());
    if (r.coin()) {
      al::write_to_csv(o.os(), x);
      single({{"op", j("matrix")}, {"x", jm(x)}, {"text", jtext(o.text())}});
    } else if (r.coin()) {
      const Eigen::VectorXd v = x.col(0);
      al::write_to_csv(o.os(), v);
      single({{"op", j("matrix")}, {"x", jm(v)}, {"text", jtext(o.text())}});
    } else {
      const Eigen::Matrix<int, 2, 3> m = (Eigen::Matrix<int, 2, 3>() << r.range(-9, 9), 2, 3, r.range(0, 999999), -5, 6).finished();
      al::write_to_csv(o.os(), m);
      single({{"op", j("matrix")}, {"x", jm(m.cast<double>())}, {"text", jtext(o.text())}});
    }
  }
}

// ------------------------------------------------------------------- samplers
static J jwalker(const al::SamplerState &s) { return obj({{"p", j(s.params)}, {"lp", j(s.log_prob)}}); }
static J jens(const al::EnsembleSamplerState &e) {
  std::vector<J> o;
  for (const auto &s : e)
    o.push_back(jwalker(s));
  return arr(o);
}
static void samplers(Rng &r, int reps) {
  for (int rep = 0; rep < reps; ++rep) {
    label("ensembles " + std::to_string(rep));
    al::ParameterStore store;
    std::vector<std::string> names = {"sigma", "length", "a", "zeta", "Mixed Case", "p[3]", "accepted"};
    r.shuffle(names);
    std::vector<J> jp;
    std::size_t tunable = 0;
    names.resize(static_cast<std::size_t>(r.range(1, 5)));
    for (const auto &n : names) {
      al::Parameter p;
      const int kind = r.range(0, 4);
      p.value = std::abs(r.dyadic()) + 0.25;
      if (kind == 0)
        p.prior = al::FixedPrior();
      else if (kind == 1)
        p.prior = al::UniformPrior(-2., 4.);
      else if (kind == 2)
        p.prior = al::PositivePrior();
      else if (kind == 3)
        p.prior = al::LogScaleUniformPrior(1e-3, 10.);
      else
        p.prior = al::GaussianPrior(0., 2.);
      if (kind == 1)
        p.value = r.dyadic(-16, 32, 0.125);
      if (kind == 3)
        p.value = 0.01;
      store[n] = p;
    }
    for (const auto &kv : store) {
      const bool fixed = kv.second.prior.is_fixed();
      tunable += !fixed;
      jp.push_back(obj({{"n", j(kv.first)}, {"v", j(kv.second.value)}, {"fixed", j(fixed)}, {"log", j(kv.second.prior.is_log_scale())}, {"lower", j(kv.second.prior.lower_bound())}, {"upper", j(kv.second.prior.upper_bound())}}));
    }
    auto sink = std::make_shared<std::ostringstream>();
    auto tracked = std::make_shared<std::ostringstream>();
    std::shared_ptr<std::ostream> os = sink, ts = tracked;
    al::CsvWritingCallback csv(store, os);
    al::MaximumLikelihoodTrackingCallback best(store, ts);
    std::vector<J> seen;
    const int iterations = r.size(1, 4, 24, 12), walkers = r.size(1, 4, 24, 12);
    for (int it = 0; it < iterations; ++it) {
      al::EnsembleSamplerState ens;
      for (int w = 0; w < walkers; ++w) {
        al::SamplerState s;
        for (const auto &kv : store)
          if (!kv.second.prior.is_fixed()) {
            const double lo = kv.second.prior.lower_bound(), hi = kv.second.prior.upper_bound();
            double v = r.chance(1, 5) ? r.dyadic() * 1e-8 : r.dyadic() / 3.;
            v = std::max(lo, std::min(hi, v));
            s.params.push_back(kv.second.prior.is_log_scale() ? std::log(v) : v);
          }
        s.log_prob = r.chance(1, 6) ? r.pick(std::vector<double>{-inf, nan_, -1e300}) : r.dyadic() / (r.coin() ? 3. : 1.);
        s.accepted = r.coin();
        ens.push_back(s);
      }
      csv(static_cast<std::size_t>(it), ens);
      best(static_cast<std::size_t>(it), ens);
      seen.push_back(jens(ens));
      step({{"op", j("state")}, {"params", arr(jp)}, {"iteration", j(it)}, {"ens", jens(ens)}, {"good", j(os->good())}, {"text", jtext(sink->str())}});
    }
    std::vector<J> maps, vals;
    std::istringstream in(sink->str()), in2(sink->str());
    for (const auto &m : al::initial_params_from_csv(in))
      maps.push_back(j(m));
    for (const auto &v : al::initial_params_from_csv(store, in2))
      vals.push_back(j(v));
    step({{"op", j("read")}, {"params", arr(jp)}, {"maps", arr(maps)}, {"values", arr(vals)}});
    std::vector<double> kept;
    for (const auto &kv : best.param_store)
      kept.push_back(kv.second.value);
    step({{"op", j("best")}, {"params", arr(jp)}, {"seen", arr(seen)}, {"ll", j(best.max_ll)}, {"kept", j(kept)}});
    end_behaviour();
  }
}
template <typename F> static void names_of(const F &f) {
  using al::to_map;
  std::vector<J> m;
  for (const auto &kv : to_map(f))
    m.push_back(arr({j(kv.first), j(kv.second)}));
  single({{"op", j("names")}, {"feature", jf(f)}, {"map", arr(m)}});
}

int main(int argc, char **argv) {
  const auto args = parse_args(argc, argv);
  std::vector<Tree> given;
  for (const auto &x : read_inputs(args.in))
    given.push_back(parse(x));
  Rng r(args.seed);
  for (const auto &t : given) {
    label("feature from the model");
    names_of(t);
  }
  for (int i = 0; i < args.scale(40, 400); ++i) {
    names_of(made<Rich>(r));
    names_of(made<Tree>(r));
    names_of(made<std::string>(r));
  }
  tables<Tree>(r, "model features", args.scale(150, 3000), [&](Rng &q) { return q.pick(given); });
  tables<Tree>(r, "trees", args.scale(60, 1000));
  tables<Rich>(r, "rich features", args.scale(60, 1000));
  tables<Custom>(r, "custom features", args.scale(60, 1000));
  tables<double>(r, "numbers", args.scale(80, 1000));
  tables<int>(r, "integers", args.scale(30, 400));
  tables<std::string>(r, "strings", args.scale(60, 1000));
  matrices(r, args.scale(40, 400));
  samplers(r, args.scale(150, 3000));
  return finish();
}
