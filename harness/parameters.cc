// C14: parameter stores and parameter holders of every kind.
#include "common.hpp"
#include "input.hpp"
#include "params_json.hpp"
#include <albatross/GP>
#include <sys/wait.h>
#include <fcntl.h>
using Values = std::map<std::string, double>;

struct Holder {
  virtual ~Holder() {}
  virtual ParameterStore get() const = 0;
  virtual void assign(const Holder &) = 0;
  virtual void set_param(const std::string &, const Parameter &, int) = 0;
  virtual void set_value(const std::string &, double, int) = 0;
  virtual void set_prior(const std::string &, const PriorContainer &, int) = 0;
  virtual void set_params(const ParameterStore &, int) = 0;
  virtual void set_values(const Values &, int) = 0;
  virtual bool set_param_if(const std::string &, const Parameter &) = 0;
  virtual bool set_value_if(const std::string &, double) = 0;
  virtual bool set_prior_if(const std::string &, const PriorContainer &) = 0;
  virtual int set_params_if(const ParameterStore &, int) = 0; // -1: does not tell
  virtual int set_values_if(const Values &, int) = 0;
  virtual void set_tunable(const std::vector<double> &, bool) = 0;
  virtual al::TunableParameters tunable() const = 0;
  virtual bool valid() const = 0;
  virtual double log_lik() const = 0;
  virtual double read(const std::string &) const = 0;
  virtual std::string pretty() const = 0;
};

struct StoreHolder : Holder {
  ParameterStore s;
  explicit StoreHolder(const ParameterStore &x) : s(x) {}
  ParameterStore get() const override { return s; }
  void assign(const Holder &o) override { s = dynamic_cast<const StoreHolder &>(o).s; }
  void set_param(const std::string &n, const Parameter &p, int) override { al::set_param(n, p, &s); }
  void set_value(const std::string &n, double v, int) override { al::set_param_value(n, v, &s); }
  void set_prior(const std::string &n, const PriorContainer &p, int) override { al::set_param_prior(n, p, &s); }
  void set_params(const ParameterStore &l, int) override { al::set_params(l, &s); }
  void set_values(const Values &l, int) override { al::set_param_values(l, &s); }
  bool set_param_if(const std::string &n, const Parameter &p) override { return al::set_param_if_exists(n, p, &s); }
  bool set_value_if(const std::string &n, double v) override { return al::set_param_value_if_exists(n, v, &s); }
  bool set_prior_if(const std::string &n, const PriorContainer &p) override { return al::set_param_prior_if_exists(n, p, &s); }
  int set_params_if(const ParameterStore &l, int) override { return al::set_params_if_exists(l, &s); }
  int set_values_if(const Values &l, int) override { return al::set_param_values_if_exists(l, &s); }
  void set_tunable(const std::vector<double> &x, bool f) override { s = al::set_tunable_params_values(s, x, f); }
  al::TunableParameters tunable() const override { return al::get_tunable_parameters(s); }
  bool valid() const override { return al::params_are_valid(s); }
  double log_lik() const override { return al::parameter_prior_log_likelihood(s); }
  double read(const std::string &n) const override { return s.at(n).value; }
  std::string pretty() const override { return al::pretty_params(s); }
};

template <typename T> struct ObjectHolder : Holder {
  T o;
  explicit ObjectHolder(const T &x) : o(x) {}
  ParameterStore get() const override { return o.get_params(); }
  void assign(const Holder &q) override { o = dynamic_cast<const ObjectHolder<T> &>(q).o; }
  al::ParameterHandlingMixin &m() { return o; }
  void set_param(const std::string &n, const Parameter &p, int) override { o.set_param(n, p); }
  void set_value(const std::string &n, double v, int w) override {
    if (w % 3 == 0)
      o.set_param_value(n, v);
    else if (w % 3 == 1)
      m().set_param(n, v);
    else
      al::set_param_value(n, v, &o);
  }
  void set_prior(const std::string &n, const PriorContainer &p, int w) override { w % 2 ? o.set_prior(n, p) : al::set_param_prior(n, p, &o); }
  void set_params(const ParameterStore &l, int w) override { w % 2 ? o.set_params(l) : al::set_params(l, &o); }
  void set_values(const Values &l, int w) override { w % 2 ? o.set_param_values(l) : al::set_param_values(l, &o); }
  bool set_param_if(const std::string &n, const Parameter &p) override { return al::set_param_if_exists(n, p, &o); }
  bool set_value_if(const std::string &n, double v) override { return al::set_param_value_if_exists(n, v, &o); }
  bool set_prior_if(const std::string &n, const PriorContainer &p) override {
    T *none = nullptr;
    T *self = &o;
    ParameterStore s = o.get_params();
    if (!s.count(n))
      return false;
    (void)none;
    return al::set_param_if_exists_in_any(n, Parameter(s.at(n).value, p), self);
  }
  int set_params_if(const ParameterStore &l, int w) override {
    if (w % 2)
      return al::set_params_if_exists(l, &o);
    o.set_params_if_exists(l);
    return -1;
  }
  int set_values_if(const Values &l, int w) override {
    if (w % 2)
      return al::set_param_values_if_exists(l, &o);
    o.set_param_values_if_exists(l);
    return -1;
  }
  void set_tunable(const std::vector<double> &x, bool f) override { f ? o.set_tunable_params_values(x) : o.set_tunable_params_values(x, false); }
  al::TunableParameters tunable() const override { return o.get_tunable_parameters(); }
  bool valid() const override { return o.params_are_valid(); }
  double log_lik() const override { return o.prior_log_likelihood(); }
  double read(const std::string &n) const override { return o.get_param_value(n); }
  std::string pretty() const override { return o.pretty_string(); }
};

struct Plain : al::ParameterHandlingMixin {
  explicit Plain(const ParameterStore &s) : al::ParameterHandlingMixin(s) {}
};
struct One : al::ParameterHandlingMixin {
  ALBATROSS_DECLARE_PARAMS(only)
};
struct Three : al::ParameterHandlingMixin {
  ALBATROSS_DECLARE_PARAMS(gamma, alpha, beta)
};
struct Eight : al::ParameterHandlingMixin {
  ALBATROSS_DECLARE_PARAMS(p8, p3, p1, p7, p2, p6, p4, p5)
};
auto make_gp() {
  return al::gp_from_covariance_and_mean(al::SquaredExponential<al::EuclideanDistance>(2., 3.) + al::measurement_only(al::IndependentNoise<double>(0.5)) * al::Constant(1.5), al::LinearMean(), "composite");
}
using Gp = decltype(make_gp());

template <typename F> bool stops(F f) {
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    const int null = open("/dev/null", O_WRONLY);
    dup2(null, 2);
    dup2(null, 1);
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS})
      signal(s, SIG_DFL);
    std::set_terminate([] { _exit(9); });
    alarm(20);
    f();
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  return !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
}

struct Op {
  std::string op;
  int h = 1;
  std::string n;
  Parameter p;
  ParameterStore l;
  std::vector<double> x;
  bool force = true;
  int how = 0;
};

struct History {
  std::string kind;
  std::unique_ptr<Holder> obj_[2];
  J all() const { return arr({jstore(obj_[0]->get()), jstore(obj_[1]->get())}); }
  void start(const ParameterStore &a, const ParameterStore &b) {
    step({{"op", j("start")}, {"kind", j(kind)}, {"given", arr({jstore(a), jstore(b)})}, {"all", all()}});
  }
  Fields describe(const Op &o) const {
    Fields f = {{"op", j(o.op)}, {"h", j(o.h)}, {"kind", j(kind)}};
    if (o.op == "set_param" || o.op == "set_param_if_exists" || o.op == "set_prior" || o.op == "set_value" || o.op == "set_value_if_exists" || o.op == "set_prior_if_exists") {
      f.push_back({"n", j(o.n)});
      f.push_back({"v", j(o.p.value)});
      f.push_back({"p", jprior(o.p.prior)});
    } else if (o.op == "copy")
      f.push_back({"from", j(3 - o.h)});
    else if (o.op == "set_tunable") {
      f.push_back({"x", j(o.x)});
      f.push_back({"force", j(o.force)});
    } else
      f.push_back({"l", jstore(o.l)});
    return f;
  }
  // whether to run it in a child: no judgement, that is the specification's
  bool risky(const Op &o) const {
    const auto s = obj_[o.h - 1]->get();
    if (o.op == "set_param" || o.op == "set_value" || o.op == "set_prior")
      return !s.count(o.n);
    if (o.op == "set_params" || o.op == "set_values") {
      for (const auto &kv : o.l)
        if (!s.count(kv.first))
          return true;
      return false;
    }
    if (o.op == "set_tunable") {
      std::size_t n = 0;
      for (const auto &kv : s)
        n += kv.second.prior.is_fixed() ? 0 : 1;
      return n != o.x.size();
    }
    if (o.op == "tunable") {
      for (const auto &kv : s)
        if (!kv.second.prior.is_fixed() && (kv.second.value < kv.second.prior.lower_bound() || kv.second.value > kv.second.prior.upper_bound()))
          return true;
    }
    return false;
  }
  int run(const Op &o) {
    Holder &q = *obj_[o.h - 1];
    Values vs;
    for (const auto &kv : o.l)
      vs[kv.first] = kv.second.value;
    if (o.op == "set_param") q.set_param(o.n, o.p, o.how);
    if (o.op == "set_value") q.set_value(o.n, o.p.value, o.how);
    if (o.op == "set_prior") q.set_prior(o.n, o.p.prior, o.how);
    if (o.op == "set_params") q.set_params(o.l, o.how);
    if (o.op == "set_values") q.set_values(vs, o.how);
    if (o.op == "set_param_if_exists") return q.set_param_if(o.n, o.p);
    if (o.op == "set_value_if_exists") return q.set_value_if(o.n, o.p.value);
    if (o.op == "set_prior_if_exists") return q.set_prior_if(o.n, o.p.prior);
    if (o.op == "set_params_if_exists") return q.set_params_if(o.l, o.how);
    if (o.op == "set_values_if_exists") return q.set_values_if(vs, o.how);
    if (o.op == "copy") q.assign(*obj_[2 - o.h]);
    if (o.op == "set_tunable") q.set_tunable(o.x, o.force);
    return -1;
  }
  void apply(const Op &o, bool forks) {
    if (risky(o)) {
      if (forks) {
        const bool s = stops([&] { run(o); });
        step({{"op", j("attempt")}, {"kind", j(kind)}, {"call", obj(describe(o))}, {"stopped", j(s)}});
      }
      return;
    }
    auto f = describe(o);
    const int ret = run(o);
    f.push_back({"all", all()});
    if (ret >= 0)
      f.push_back({"ret", j(ret == 1)});
    step(f);
  }
  void observe(int h, bool forks) {
    const Holder &q = *obj_[h - 1];
    const auto s = q.get();
    for (const auto &kv : s)
      step({{"op", j("read")}, {"h", j(h)}, {"n", j(kv.first)}, {"out", j(q.read(kv.first))}});
    step({{"op", j("valid")}, {"h", j(h)}, {"out", j(q.valid())}});
    step({{"op", j("log_likelihood")}, {"h", j(h)}, {"out", j(q.log_lik())}});
    std::vector<J> printed;
    std::istringstream is(q.pretty());
    for (std::string line; std::getline(is, line);) {
      const auto a = line.find("{\""), b = line.find("\", "), c = line.rfind("},");
      if (a != std::string::npos && b != std::string::npos && c != std::string::npos)
        printed.push_back(obj({{"n", j(line.substr(a + 2, b - a - 2))}, {"v", j(std::strtod(line.substr(b + 3, c - b - 3).c_str(), nullptr))}}));
    }
    step({{"op", j("pretty")}, {"h", j(h)}, {"out", arr(printed)}});
    Op t;
    t.op = "tunable";
    t.h = h;
    if (risky(t)) {
      if (forks) {
        const bool st = stops([&] { q.tunable(); });
        step({{"op", j("attempt")}, {"kind", j(kind)}, {"call", obj({{"op", j("tunable")}, {"h", j(h)}})}, {"stopped", j(st)}});
      }
    } else {
      const auto p = q.tunable();
      step({{"op", j("tunable")}, {"h", j(h)}, {"names", j(p.names)}, {"values", j(p.values)}, {"lower", j(p.lower_bounds)}, {"upper", j(p.upper_bounds)}});
    }
  }
};

PriorContainer prior_of(const Json &p) {
  const std::string t = p["t"];
  auto num = [](const Json &v) { return v.is_string() ? std::stod(v.get<std::string>()) : v.get<double>(); };
  if (t == "fixed")
    return al::FixedPrior();
  if (t == "uniform")
    return al::UniformPrior(num(p["a"]), num(p["b"]));
  return al::UninformativePrior();
}
double num_of(const Json &v) { return v.is_string() ? std::stod(v.get<std::string>()) : v.get<double>(); }

PriorContainer random_prior(Rng &rng) {
  const double a = rng.dyadic(-16, 16), w = rng.range(1, 40) * 0.125;
  switch (rng.range(0, 8)) {
  case 0: return al::UninformativePrior();
  case 1: return al::FixedPrior();
  case 2: return al::NonNegativePrior();
  case 3: return al::PositivePrior();
  case 4: return al::UniformPrior(a, a + w);
  case 5: return rng.coin() ? al::LogScaleUniformPrior() : al::LogScaleUniformPrior(w, w * rng.range(2, 1000));
  case 6: return al::GaussianPrior(a, w);
  case 7: return al::LogNormalPrior(a, w);
  default: return al::PositiveGaussianPrior(0., w);
  }
}
double random_value(Rng &rng, const PriorContainer &p) {
  const double lo = p.lower_bound(), hi = p.upper_bound();
  switch (rng.range(0, 11)) {
  case 0: return lo;
  case 1: return hi;
  case 2: return std::isfinite(lo) ? std::nextafter(lo, -1e300) : lo;
  case 3: return std::isfinite(hi) ? std::nextafter(hi, 1e300) : hi;
  case 4: return rng.chance(1, 3) ? std::nan("") : rng.coin() ? -0. : 1e300;
  case 5: return rng.dyadic(-64, 64);
  default: {
    const double l = std::isfinite(lo) ? lo : -9., h = std::isfinite(hi) ? hi : l + 30.;
    return l + (h - l) * rng.range(0, 64) / 64.;
  }
  }
}
Parameter random_param(Rng &rng) {
  const auto p = random_prior(rng);
  return Parameter(random_value(rng, p), p);
}

std::unique_ptr<Holder> make(const std::string &kind, const ParameterStore &s) {
  std::unique_ptr<Holder> h;
  if (kind == "store")
    return std::make_unique<StoreHolder>(s);
  if (kind == "mixin")
    return std::make_unique<ObjectHolder<Plain>>(Plain(s));
  if (kind == "one") h = std::make_unique<ObjectHolder<One>>(One());
  if (kind == "three") h = std::make_unique<ObjectHolder<Three>>(Three());
  if (kind == "eight") h = std::make_unique<ObjectHolder<Eight>>(Eight());
  if (kind == "gp") h = std::make_unique<ObjectHolder<Gp>>(make_gp());
  h->set_params(s, 1);
  return h;
}
std::vector<std::string> names_of(const std::string &kind) {
  if (kind == "one") return {"only"};
  if (kind == "three") return {"alpha", "beta", "gamma"};
  if (kind == "eight") return {"p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8"};
  if (kind == "gp") {
    std::vector<std::string> o;
    for (const auto &kv : make_gp().get_params())
      o.push_back(kv.first);
    return o;
  }
  return {"a", "b", "length scale", "x.y"};
}

int main(int argc, char **argv) {
  Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  int count = 0;
  for (const auto &in : read_inputs(args.in)) {
    const bool forks = ++count % 11 == 0;
    for (const std::string kind : {"store", "mixin"}) {
      if (kind == "store" && count % 2 && !args.thorough())
        continue;
      label("model history " + std::to_string(count) + " " + kind);
      History hist;
      hist.kind = kind;
      ParameterStore s[2];
      for (int h = 0; h < 2; ++h) {
        for (const auto &r : in["start"][h])
          s[h][r["n"]] = Parameter(num_of(r["v"]), prior_of(r["p"]));
        hist.obj_[h] = make(kind, s[h]);
      }
      hist.start(s[0], s[1]);
      for (const auto &e : in["ops"]) {
        Op o;
        o.op = e["op"];
        o.h = e["h"];
        o.how = rng.range(0, 5);
        if (e.contains("n")) o.n = e["n"];
        if (e.contains("v")) o.p.value = num_of(e["v"]);
        if (e.contains("p")) o.p.prior = prior_of(e["p"]);
        if (e.contains("l"))
          for (const auto &r : e["l"])
            o.l[r["n"]] = Parameter(num_of(r["v"]), prior_of(r["p"]));
        if (e.contains("x"))
          for (const auto &v : e["x"])
            o.x.push_back(num_of(v));
        if (e.contains("force")) o.force = e["force"];
        hist.apply(o, forks);
      }
      if (count % 4 == 0) {
        hist.observe(1, forks);
        hist.observe(2, forks);
      }
      end_behaviour();
    }
  }
  const std::vector<std::string> kinds = {"store", "mixin", "one", "three", "eight", "gp"};
  const std::vector<std::string> ops = {"set_param", "set_value", "set_prior", "set_params", "set_values", "set_param_if_exists", "set_value_if_exists", "set_prior_if_exists",
                                        "set_params_if_exists", "set_values_if_exists", "copy", "set_tunable", "set_tunable"};
  for (int n = 0; n < args.scale(420, 4200); ++n) {
    History hist;
    hist.kind = kinds[static_cast<std::size_t>(n) % kinds.size()];
    label("random history " + std::to_string(n) + " " + hist.kind);
    auto names = names_of(hist.kind);
    ParameterStore s[2];
    for (int h = 0; h < 2; ++h) {
      for (const auto &x : names)
        s[h][x] = random_param(rng);
      hist.obj_[h] = make(hist.kind, s[h]);
    }
    hist.start(s[0], s[1]);
    const int len = rng.range(1, 8);
    for (int m = 0; m < len; ++m) {
      Op o;
      o.op = rng.pick(ops);
      o.h = rng.range(1, 2);
      o.how = rng.range(0, 5);
      auto name = [&] { return rng.chance(1, 10) ? std::string("unknown") : rng.pick(names); };
      o.n = name();
      o.p = random_param(rng);
      const auto cur = hist.obj_[o.h - 1]->get();
      if (cur.count(o.n) && rng.coin())
        o.p.value = random_value(rng, cur.at(o.n).prior);
      for (int q = rng.range(0, static_cast<int>(names.size())); q > 0; --q)
        o.l[rng.chance(1, 12) ? std::string("unknown") : rng.pick(names)] = random_param(rng);
      o.force = rng.coin();
      for (const auto &kv : cur)
        if (!kv.second.prior.is_fixed()) {
          double v = random_value(rng, kv.second.prior);
          if (kv.second.prior.is_log_scale())
            v = rng.chance(1, 4) ? rng.dyadic(-80, 80) : std::log(std::max(1e-300, std::fabs(v)));
          o.x.push_back(v);
        }
      if (rng.chance(1, 8))
        o.x.push_back(1.);
      else if (rng.chance(1, 8) && !o.x.empty())
        o.x.pop_back();
      hist.apply(o, true);
      if (rng.chance(1, 3))
        hist.observe(rng.range(1, 2), true);
    }
    hist.observe(1, true);
    hist.observe(2, true);
    end_behaviour();
  }
  // priors on their own
  for (int n = 0; n < args.scale(1500, 15000); ++n) {
    PriorContainer p = random_prior(rng);
    const double x = random_value(rng, p);
    label("prior");
    single({{"op", j("prior")}, {"p", jprior(p)}, {"x", j(x)}, {"log_pdf", j(p.log_pdf(x))}, {"lower", j(p.lower_bound())}, {"upper", j(p.upper_bound())},
            {"fixed", j(p.is_fixed())}, {"log_scale", j(p.is_log_scale())}, {"within", j(Parameter(x, p).within_bounds())}});
    Parameter a = random_param(rng), b = rng.coin() ? a : random_param(rng);
    if (rng.chance(1, 4))
      a.prior = al::UniformPrior(1., 2.), b.prior = rng.coin() ? al::UniformPrior(1., 2.) : al::UniformPrior(1., std::nextafter(2., 3.)), b.value = a.value;
    if (rng.chance(1, 6))
      a.prior = al::LogScaleUniformPrior(1., 2.), b.prior = rng.coin() ? PriorContainer(al::LogScaleUniformPrior(1., 2. + 1e-9)) : PriorContainer(al::UniformPrior(1., 2.)), b.value = a.value;
    if (rng.chance(1, 4))
      b.value = a.value;
    single({{"op", j("equal")}, {"a", jrec("", a)}, {"b", jrec("", b)}, {"out", j(a == b)}, {"differ", j(a != b)}});
  }
  return finish();
}
