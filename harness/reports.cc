// What is written for people, read back, in the vocabulary of spec/Reports.tla.
#define VERIF_EIGEN
#include "params_json.hpp"
#include "input.hpp"
#include <albatross/Dataset>
#include <albatross/GP>
#include <albatross/Graph>
#include <albatross/Indexing>
#include <albatross/Tune>
#include <albatross/linalg/Utils>
#include <albatross/src/linalg/print_eigen_directions.hpp>
static const double inf = HUGE_VAL;
static double number(const std::string &s) {
  char *end = nullptr;
  const double x = std::strtod(s.c_str(), &end);
  return end == s.c_str() ? -123.456 : x;
}
static std::vector<std::string> lines_of(const std::string &text) {
  std::vector<std::string> o;
  std::istringstream is(text);
  for (std::string l; std::getline(is, l);)
    o.push_back(l);
  return o;
}
static std::string trimmed(const std::string &s) {
  const auto a = s.find_first_not_of(' '), b = s.find_last_not_of(' ');
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
static bool starts(const std::string &s, const std::string &what) { return s.rfind(what, 0) == 0; }
using Listed = std::vector<std::pair<std::string, double>>;
// {"name", value}, one per line
static bool read_value(const std::string &line, Listed *out) {
  const auto a = line.find("{\""), b = line.find("\", "), c = line.rfind("},");
  if (a == std::string::npos || b == std::string::npos || c == std::string::npos)
    return false;
  out->push_back({line.substr(a + 2, b - a - 2), number(line.substr(b + 3, c - b - 3))});
  return true;
}
static J read_prior(const std::string &text) {
  const auto a = text.find('['), b = text.find(',', a == std::string::npos ? 0 : a), c = text.rfind(']');
  if (a == std::string::npos || b == std::string::npos || c == std::string::npos)
    return obj({{"t", j(trimmed(text))}, {"a", j(0.)}, {"b", j(0.)}});
  return obj({{"t", j(trimmed(text.substr(0, a)))}, {"a", j(number(text.substr(a + 1)))}, {"b", j(number(text.substr(b + 1)))}});
}

// ------------------------------------------------------------------- listings
static PriorContainer prior(const std::string &t, Rng &r) {
  const double a = r.dyadic(-40, 40, 0.125), w = r.dyadic(1, 40, 0.125), p = r.dyadic(1, 40, 0.125);
  if (t == "fixed")
    return al::FixedPrior();
  if (t == "positive")
    return al::PositivePrior();
  if (t == "non_negative")
    return al::NonNegativePrior();
  if (t == "uniform")
    return al::UniformPrior(a, a + w);
  if (t == "log_scale_uniform")
    return al::LogScaleUniformPrior(p, p + w);
  if (t == "gaussian")
    return al::GaussianPrior(a, w);
  if (t == "positive_gaussian")
    return al::PositiveGaussianPrior(a, w);
  if (t == "log_normal")
    return al::LogNormalPrior(a, w);
  return al::UninformativePrior();
}
static double place(const PriorContainer &p, const std::string &at, Rng &r) {
  const double lo = p.lower_bound(), hi = p.upper_bound();
  const bool l = std::isfinite(lo), h = std::isfinite(hi);
  if (at == "nan")
    return NAN;
  if (at == "below")
    return l ? lo - r.dyadic(1, 20, 0.25) : -1e9;
  if (at == "above")
    return h ? hi + r.dyadic(1, 20, 0.25) : 1e9;
  if (at == "low" && l)
    return lo;
  if (at == "high" && h)
    return hi;
  if (l && h)
    return lo + (hi - lo) * r.range(1, 7) / 8.;
  return (l ? lo + 1. : 0.) + r.range(0, 1000) / 3.;
}
static void listing(const ParameterStore &s) {
  Listed values;
  for (const auto &l : lines_of(al::pretty_params(s)))
    read_value(l, &values);
  std::vector<J> priors, details;
  const auto pl = lines_of(al::pretty_priors(s));
  for (std::size_t i = 1; i < pl.size(); ++i) {
    const auto a = pl[i].find('"'), b = pl[i].find("\": ");
    const bool ok = pl[0] == "PRIORS:" && a != std::string::npos && b != std::string::npos;
    priors.push_back(obj({{"n", j(ok ? pl[i].substr(a + 1, b - a - 1) : "?")}, {"p", read_prior(ok ? pl[i].substr(b + 3) : "?")}}));
  }
  for (const auto &l : lines_of(al::pretty_param_details(s))) {
    const auto v = l.find(" value: "), d = l.find(" valid: "), p = l.find(" prior: "), b = l.find(" bounds: [");
    if (v == std::string::npos || d == std::string::npos || p == std::string::npos || b == std::string::npos)
      continue;
    const auto comma = l.find(", ", b + 10);
    details.push_back(obj({{"n", j(trimmed(l.substr(0, v)))}, {"v", j(number(l.substr(v + 8)))}, {"valid", j(trimmed(l.substr(d + 8, p - d - 8)) == "1")}, {"p", read_prior(l.substr(p + 8, b - p - 8))}, {"lower", j(number(l.substr(b + 10)))}, {"upper", j(comma == std::string::npos ? -1. : number(l.substr(comma + 2)))}}));
  }
  single({{"op", j("listing")}, {"store", jstore(s)}, {"values", j(values)}, {"priors", arr(priors)}, {"details", arr(details)}});
}
static std::string name(int i, Rng &r) { return std::string(1, static_cast<char>('a' + (i * 7) % 26)) + std::string(static_cast<std::size_t>(r.range(0, 18)), 'x') + std::to_string(i); }

// --------------------------------------------------------------------- tuners
static J jp(const ParameterStore &s) {
  std::vector<J> o;
  for (const auto &kv : s)
    o.push_back(j(std::make_pair(kv.first, kv.second.value)));
  return arr(o);
}
static void begin(const std::string &flavour, const ParameterStore &ps) { step({{"op", j("tuning")}, {"flavour", j(flavour)}, {"params", jstore(ps)}}); }
static void asked(const J &p, double out) { step({{"op", j("asked")}, {"p", p}, {"out", j(out)}}); }
static void tuner_log(const std::string &text, bool vector, const J &result, int number_of_code) {
  std::vector<J> blocks;
  Listed gradient, values, tuned;
  std::string code;
  double minimum = -777.;
  enum { outside, in_gradient, in_block, at_end } where = outside;
  for (const auto &l : lines_of(text)) {
    const bool dashes = starts(l, "---"), twice = starts(l, "===");
    if (twice)
      where = at_end;
    else if (l == "gradient")
      where = in_gradient;
    else if (dashes)
      where = where == in_block ? outside : in_block;
    else if (where == in_block && starts(l, "objective: ")) {
      blocks.push_back(obj({{"gradient", j(gradient)}, {"values", j(values)}, {"objective", j(number(l.substr(11)))}}));
      gradient.clear();
      values.clear();
    } else if (where == in_gradient || (where == in_block && vector)) {
      const auto colon = l.find(" : ");
      if (colon != std::string::npos)
        (where == in_gradient ? gradient : values).push_back({trimmed(l.substr(0, colon)), number(l.substr(colon + 3))});
    } else if (where == in_block)
      read_value(l, &values);
    else if (where == at_end) {
      if (starts(l, "minimum: "))
        minimum = number(l.substr(9));
      else if (starts(l, "nlopt termination code: "))
        code = l.substr(24);
      else
        read_value(l, &tuned);
    }
  }
  step({{"op", j("log")}, {"blocks", arr(blocks)}, {"tuned", j(tuned)}, {"result", result}, {"minimum", j(minimum)}, {"code", j(code)}, {"number", j(std::to_string(number_of_code))}});
}
static double bowl(const std::vector<double> &x, const std::vector<double> &c) {
  double s = 0.5;
  for (std::size_t i = 0; i < x.size(); ++i)
    s += (1. + static_cast<double>(i)) * (x[i] - c[i]) * (x[i] - c[i]);
  return s;
}
static std::vector<double> values_of(const ParameterStore &ps) {
  std::vector<double> x;
  for (const auto &kv : ps)
    x.push_back(kv.second.value);
  return x;
}
static ParameterStore some_params(int n, bool log_scale, Rng &r) {
  static const std::vector<std::string> plain = {"uninformative", "fixed", "positive", "non_negative", "uniform", "uniform", "gaussian", "positive_gaussian"};
  ParameterStore ps;
  for (int i = 0; i < n; ++i) {
    const auto p = prior(log_scale && r.chance(1, 3) ? "log_scale_uniform" : i == 0 ? "uniform" : r.pick(plain), r);
    ps[name(i, r)] = {place(p, r.pick(std::vector<std::string>{"inside", "inside", "low", "high"}), r), p};
  }
  return ps;
}
static std::vector<double> some_center(std::size_t n, Rng &r) {
  std::vector<double> c;
  while (c.size() < n)
    c.push_back(r.dyadic(-64, 64, 0.25));
  return c;
}
static void tune_params(Rng &r) {
  label("tuner log");
  const bool gradient = r.chance(1, 3);
  const auto ps = some_params(r.range(1, 5), !gradient, r);
  const auto c = some_center(ps.size(), r);
  const double bad = gradient ? inf : r.pick(std::vector<double>{inf, inf, 0., 5.});
  std::ostringstream os;
  al::GenericTuner tuner(ps, os);
  if (gradient)
    tuner.optimizer = al::default_gradient_optimizer(ps);
  tuner.optimizer.set_maxeval(r.range(1, 40));
  if (r.chance(1, 6))
    tuner.optimizer.set_stopval(bowl(values_of(ps), c) * 0.7);
  begin("params", ps);
  auto f = [&](const ParameterStore &p) {
    const auto x = values_of(p);
    const double out = x[0] > bad ? (r.coin() ? NAN : inf) : bowl(x, c);
    asked(jp(p), out);
    return out;
  };
  try {
    const auto got = tuner.tune(f);
    tuner_log(os.str(), false, jp(got), tuner.optimizer.last_optimize_result());
  } catch (const std::exception &) {
  }
  end_behaviour();
}
static void tune_vectors(Rng &r) {
  label("tuner log of vectors");
  const auto x0 = some_center(static_cast<std::size_t>(r.size(1, 5, 13, 6)), r), c = some_center(x0.size(), r);
  std::ostringstream os;
  al::GenericTuner tuner(x0, os);
  if (r.chance(1, 3))
    tuner.optimizer = al::default_gradient_optimizer(tuner.initial_params);
  tuner.optimizer.set_maxeval(r.range(1, 30));
  begin("vector", tuner.initial_params);
  const auto jx = [&](const std::vector<double> &x) {
    Listed l;
    for (std::size_t i = 0; i < x.size(); ++i)
      l.push_back({std::to_string(i), x[i]});
    return j(l);
  };
  auto f = [&](const std::vector<double> &x) {
    const double out = bowl(x, c);
    asked(jx(x), out);
    return out;
  };
  try {
    const auto got = tuner.tune(f);
    ParameterStore s = tuner.initial_params;
    std::size_t i = 0;
    for (auto &kv : s)
      kv.second.value = got.at(i++);
    tuner_log(os.str(), true, jp(s), tuner.optimizer.last_optimize_result());
  } catch (const std::exception &) {
  }
  end_behaviour();
}
static void greedy(Rng &r) {
  label("greedy log");
  const auto ps = some_params(r.range(1, 4), true, r);
  const auto c = some_center(ps.size(), r);
  const double bad = r.pick(std::vector<double>{inf, inf, 0., -1e9});
  std::ostringstream os;
  begin("greedy", ps);
  auto f = [&](const ParameterStore &p) {
    const auto x = values_of(p);
    const double out = x[0] > bad ? (r.coin() ? NAN : inf) : bowl(x, c);
    asked(jp(p), out);
    return out;
  };
  al::greedy_tune(f, ps, static_cast<std::size_t>(r.range(1, 4)), static_cast<std::size_t>(r.range(0, 3)), nullptr, &os);
  std::vector<J> tuning, attempts, evaluations;
  std::vector<double> proposals;
  Listed initial, best;
  std::string turn;
  double best_value = -777.;
  enum { announcing, first, trying, summary } where = announcing;
  auto numbers = [](std::string s) {
    std::vector<double> o;
    for (std::size_t at; (at = s.find(',')) != std::string::npos; s = s.substr(at + 1))
      o.push_back(number(s.substr(0, at)));
    return o;
  };
  for (const auto &l : lines_of(os.str())) {
    if (starts(l, "NEXT ATTEMPTS: ")) {
      where = trying;
      const auto colon = l.find(" : ");
      turn = l.substr(15, colon - 15);
      proposals = numbers(l.substr(colon + 3));
      evaluations.clear();
    } else if (starts(l, "===")) {
      if (where == summary) {
        attempts.push_back(obj({{"n", j(turn)}, {"proposals", j(proposals)}, {"evaluations", arr(evaluations)}, {"best_value", j(best_value)}, {"best", j(best)}}));
        best.clear();
        where = trying;
      } else
        where = summary;
    } else if (starts(l, "Initial params:"))
      where = first;
    else if (where == first)
      read_value(l, &initial);
    else if (where == summary) {
      if (starts(l, "BEST_VALUE : "))
        best_value = number(l.substr(13));
      else
        read_value(l, &best);
    } else if (where == announcing) {
      const auto a = l.find("    [ "), b = l.rfind(" ]");
      if (a != std::string::npos && b != std::string::npos && a > 0)
        tuning.push_back(arr({j(trimmed(l.substr(0, l.find("    [ ")))), j(numbers(l.substr(a + 6, b - a - 6)))}));
    } else {
      const auto e = l.find(" = "), c2 = l.find("   :   ");
      if (e != std::string::npos && c2 != std::string::npos)
        evaluations.push_back(obj({{"n", j(trimmed(l.substr(0, e)))}, {"v", j(number(l.substr(e + 3)))}, {"out", j(number(l.substr(c2 + 7)))}, {"best", j(l.find("BEST SO FAR") != std::string::npos)}}));
    }
  }
  step({{"op", j("greedy_log")}, {"tuning", arr(tuning)}, {"initial", j(initial)}, {"attempts", arr(attempts)}});
  end_behaviour();
}

// ----------------------------------------------------------- eigen directions
static J read_directions(const std::string &text, double *low, double *high) {
  std::vector<J> rows, coefs;
  double value = 0;
  bool open = false;
  auto close = [&] {
    if (open)
      rows.push_back(obj({{"value", j(value)}, {"coefs", arr(coefs)}}));
    coefs.clear();
  };
  for (const auto &l : lines_of(text)) {
    if (starts(l, "MIN: "))
      *low = number(l.substr(5));
    else if (starts(l, "MAX: "))
      *high = number(l.substr(5));
    else if (starts(l, "eigen value: ")) {
      close();
      open = true;
      value = number(l.substr(13));
    } else {
      std::istringstream is(l);
      double c = 0;
      std::string f;
      is >> c >> f;
      coefs.push_back(arr({j(c), j(starts(f, "f") ? std::stoi(f.substr(1)) : 0)}));
    }
  }
  close();
  return arr(rows);
}
static void eigen(Rng &r) {
  label("eigen directions");
  const int n = r.size(1, 4, 9, 8);
  Eigen::MatrixXd m(n, n);
  const bool diagonal = r.chance(1, 5), nearly = r.chance(1, 3);
  for (int a = 0; a < n; ++a)
    for (int b = 0; b <= a; ++b)
      m(a, b) = m(b, a) = (diagonal && a != b ? 0. : r.dyadic(-32, 32, 0.125)) * (nearly && a != b ? 0.001 : 1.);
  std::vector<std::string> features;
  for (int i = 0; i < n; ++i)
    features.push_back("f" + std::to_string(i + 1));
  const bool small = r.coin();
  const int count = r.range(0, n);
  const double above = r.chance(1, 4) ? 1e-3 : r.pick(std::vector<double>{0.1, 0.3, 0.5, 0.05, 0., 1e-4});
  std::ostringstream all, some;
  double low = 0, high = 0, l2 = 0, h2 = 0;
  if (r.coin())
    some << std::fixed << std::showpos << std::left;
  const auto flags = some.flags();
  std::ostringstream plain;
  auto print = [&](std::size_t k, double t, std::ostream *os) { small ? al::print_small_eigen_directions(m, features, k, t, os) : al::print_large_eigen_directions(m, features, k, t, os); };
  print(static_cast<std::size_t>(n), -1., &all); // every coefficient
  print(static_cast<std::size_t>(count), above, &some);
  if (above == 1e-3) { // the default, to the default stream
    auto *const before = std::cout.rdbuf(plain.rdbuf());
    small ? al::print_small_eigen_directions(m, features, static_cast<std::size_t>(count)) : al::print_large_eigen_directions(m, features, static_cast<std::size_t>(count));
    std::cout.rdbuf(before);
  } else
    print(static_cast<std::size_t>(count), above, &plain);
  const J ja = read_directions(all.str(), &low, &high), js = read_directions(plain.str(), &l2, &h2);
  single({{"op", j("eigen")}, {"which", j(small ? "small" : "large")}, {"matrix", jm(m)}, {"all", ja}, {"some", js}, {"count", j(count)}, {"above", j(above)}, {"min", j(low)}, {"max", j(high)}, {"flags_kept", j(some.flags() == flags && l2 == low && h2 == high)}});
}

// --------------------------------------------------------------- other texts
template <typename C> static void calls(C cov, double x, double y) {
  auto trace = cov.call_trace();
  std::vector<J> rows, lines;
  for (const auto &cv : trace.get_trace(x, y))
    rows.push_back(arr({j(trimmed(cv.value)), j(trimmed(cv.call_name))}));
  std::ostringstream os;
  auto *const before = std::cout.rdbuf(os.rdbuf());
  trace.print(x, y);
  std::cout.rdbuf(before);
  const auto ls = lines_of(os.str());
  const auto column = ls.empty() ? std::string::npos : ls[0].find("FUNCTION");
  for (std::size_t i = 2; i < ls.size(); ++i)
    lines.push_back(column == std::string::npos || ls[i].size() < column ? arr({j("?"), j(ls[i])}) : arr({j(trimmed(ls[i].substr(0, column))), j(trimmed(ls[i].substr(column)))}));
  single({{"op", j("calls")}, {"rows", arr(rows)}, {"lines", arr(lines)}});
}
static void texts(Rng &r) {
  label("graph");
  al::Graph<int> g;
  const int n = r.range(1, 8);
  std::vector<J> edges, lines;
  for (int e = r.range(0, 9); e-- > 0;) {
    const int a = r.range(1, n), b = r.range(1, n);
    const double cost = r.chance(1, 4) ? r.dyadic() / 3. : r.dyadic();
    al::add_edge({a, b, cost}, &g);
  }
  for (const auto &e : g.edges)
    edges.push_back(obj({{"a", j(e.a)}, {"b", j(e.b)}, {"cost", j(e.cost)}}));
  std::ostringstream os;
  os << g;
  for (const auto &l : lines_of(os.str())) {
    int a = 0, b = 0;
    double c = 0;
    if (sscanf(l.c_str(), "%d <--> %d [%lf]", &a, &b, &c) != 3)
      a = b = -9;
    lines.push_back(obj({{"a", j(a)}, {"b", j(b)}, {"cost", j(c)}}));
  }
  single({{"op", j("graph")}, {"edges", arr(edges)}, {"lines", arr(lines)}});
  label("measurement");
  std::ostringstream ms;
  const std::string v = std::to_string(r.range(-99, 99));
  ms << al::as_measurement(v);
  single({{"op", j("measurement")}, {"value", j(v)}, {"out", j(ms.str())}});
  label("call trace");
  const double x = r.dyadic() / 3., y = r.coin() ? x : r.dyadic();
  using SE = al::SquaredExponential<al::EuclideanDistance>;
  SE se(r.dyadic(1, 40), r.dyadic(1, 40));
  al::IndependentNoise<double> noise(r.dyadic(1, 20));
  al::Exponential<al::EuclideanDistance> ex(r.dyadic(1, 40), r.dyadic(1, 9));
  switch (r.range(0, 4)) {
  case 0:
    return calls(se, x, y);
  case 1:
    return calls(se + noise, x, y);
  case 2:
    return calls(se * ex, x, y);
  case 3:
    return calls(se * (ex + noise) + al::Constant(2.), x, y);
  default:
    return calls((se + ex) * (al::Polynomial<2>(1.5) + noise), x, y);
  }
}
int main(int argc, char **argv) {
  const Args args = parse_args(argc, argv);
  Rng r(args.seed);
  label("listings");
  for (const auto &in : read_inputs(args.in)) {
    ParameterStore s;
    int i = 0;
    for (const auto &p : in.at("params")) {
      const auto q = prior(p.at("t").get<std::string>(), r);
      s[name(i++, r)] = {place(q, p.at("at").get<std::string>(), r), q};
    }
    listing(s);
  }
  {
    std::vector<J> codes;
    for (int c : {-5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6})
      codes.push_back(arr({j(std::to_string(c)), j(al::to_string(static_cast<nlopt::result>(c)))}));
    single({{"op", j("codes")}, {"codes", arr(codes)}});
  }
  for (int i = 0; i < args.scale(150, 1500); ++i)
    tune_params(r);
  for (int i = 0; i < args.scale(80, 800); ++i)
    tune_vectors(r);
  for (int i = 0; i < args.scale(120, 1200); ++i)
    greedy(r);
  for (int i = 0; i < args.scale(150, 1500); ++i)
    eigen(r);
  for (int i = 0; i < args.scale(150, 1500); ++i)
    texts(r);
  return finish();
}
