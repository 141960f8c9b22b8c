#include "ransac_check.hpp"
// -- scripted answers: the n-th candidate gets the n-th answer
struct Answer {
  bool valid;
  int inliers;
  double m;
};
static double number(const std::string &s) { return s == "nan" ? NAN : s == "inf" ? HUGE_VAL : std::stod(s); }
static void scripts(const std::string &path) {
  label("scripts");
  for (const auto &in : read_inputs(path)) {
    std::vector<Answer> script;
    for (const auto &a : in.at("answers"))
      script.push_back({a.at("valid").get<bool>(), a.at("inliers").get<int>(), number(a.at("m").get<std::string>())});
    const auto min = in.at("min").get<std::size_t>(), max = in.at("max").get<std::size_t>(), failed = in.at("max_failed").get<std::size_t>();
    const Keys groups = {10, 20, 30, 40};
    // by how many candidates were considered; what is asked after the script gets the last answer
    std::map<std::size_t, Answer> given;
    std::size_t considered = 0;
    auto answer = [&](std::size_t i) { return script[std::min(i, script.size() - 1)]; };
    struct ScriptedFit {
      std::size_t i;
      Keys candidates;
    };
    auto metric_of = [&](int g, const ScriptedFit &f) {
      int rank = 0;
      for (const int h : groups)
        if (h != g && h < g && std::find(f.candidates.begin(), f.candidates.end(), h) == f.candidates.end())
          ++rank;
      return rank < answer(f.i).inliers ? 1. : 3.;
    };
    al::RansacFunctions<ScriptedFit, int> f([&](const Keys &c) { return ScriptedFit{considered - 1, c}; },
                                            [&](const int &g, const ScriptedFit &fit) { return metric_of(g, fit); },
                                            [&](const Keys &) { return answer(considered - 1).m; },
                                            [&](const Keys &) { return answer(considered++).valid; });
    log_begin(groups, 1., 1, min, max, failed);
    const auto out = al::ransac(f, groups, 1., 1, min, max, failed);
    log_output(out, [&](std::size_t i, const al::RansacIteration<int> &it) {
      const Answer a = answer(i);
      std::vector<std::pair<int, double>> metrics;
      if (a.valid)
        for (const int g : groups)
          if (std::find(it.candidates.begin(), it.candidates.end(), g) == it.candidates.end())
            metrics.push_back({g, metric_of(g, {i, it.candidates})});
      return obj({{"valid", j(a.valid)}, {"metrics", j(metrics)}, {"consensus", j(a.m)}});
    });
    end_behaviour();
  }
}
// -- arbitrary functions of the keys
struct KeyFit {
  Keys candidates;
};
static uint64_t mix(uint64_t s, const Keys &k, int g = -1) {
  Rng r(s);
  uint64_t h = r.next() + static_cast<uint64_t>(g + 7);
  for (const int x : k)
    h = Rng(h ^ static_cast<uint64_t>(x)).next();
  return Rng(h + static_cast<uint64_t>(g + 1) * 977).next();
}
static al::RansacFunctions<KeyFit, int> functions(uint64_t seed, int reject, bool odd) {
  const std::vector<double> values = odd ? std::vector<double>{-HUGE_VAL, -2., 0., 1., 1., std::nextafter(1., 2.), 5., HUGE_VAL, NAN} : std::vector<double>{-2., 0., 0.5, 1., 2., 3.};
  const std::vector<double> costs = odd ? std::vector<double>{-HUGE_VAL, -1., 0., 2., HUGE_VAL, NAN, NAN} : std::vector<double>{-3., -1., 0., 2., 7.};
  return al::RansacFunctions<KeyFit, int>([](const Keys &c) { return KeyFit{sorted(c)}; },
                                          [=](const int &g, const KeyFit &f) { return values[mix(seed, f.candidates, g) % values.size()]; },
                                          [=](const Keys &c) { return costs[mix(seed + 1, sorted(c)) % costs.size()]; },
                                          [=](const Keys &c) { return static_cast<int>(mix(seed + 2, sorted(c)) % 10) >= reject; });
}
// what the text says, read back
static J read_iteration(std::istream &is) {
  Keys candidates;
  std::vector<std::pair<int, double>> in, out;
  double metric = -777.;
  std::string line;
  bool ok = std::getline(is, line) && line.rfind("CANDIDATES: ", 0) == 0;
  for (std::size_t at = 12; ok && at < line.size();) {
    const auto comma = line.find(", ", at);
    ok = comma != std::string::npos;
    if (ok)
      candidates.push_back(std::stoi(line.substr(at, comma - at)));
    at = comma + 2;
  }
  ok = ok && std::getline(is, line) && line == "INLIERS: ";
  std::vector<std::pair<int, double>> *section = &in;
  while (ok && std::getline(is, line)) {
    if (line == "OUTLIERS: ") {
      ok = section == &in;
      section = &out;
    } else if (line.rfind("CONSENSUS_METRIC: ", 0) == 0) {
      metric = std::strtod(line.c_str() + 18, nullptr);
      break;
    } else {
      const auto colon = line.find(" : ");
      ok = colon != std::string::npos && line.rfind("    ", 0) == 0;
      if (ok)
        section->push_back({std::stoi(line.substr(4, colon - 4)), std::strtod(line.c_str() + colon + 3, nullptr)});
    }
  }
  return obj({{"ok", j(ok && section == &out)}, {"candidates", j(candidates)}, {"inliers", j(in)}, {"outliers", j(out)}, {"metric", j(metric)}});
}
static void printed(const al::RansacOutput<int> &out) {
  std::stringstream s;
  s << out;
  std::vector<J> its, read;
  for (const auto &it : out.iterations)
    its.push_back(jit(it));
  its.push_back(jit(out.best));
  std::vector<std::string> titles;
  std::string line, code;
  while (std::getline(s, line)) {
    if (line.rfind("RETURN CODE: ", 0) == 0) {
      code = line.substr(13);
      break;
    }
    titles.push_back(line);
    read.push_back(read_iteration(s));
  }
  step({{"op", j("printed")}, {"its", arr(its)}, {"titles", j(titles)}, {"read", arr(read)}, {"code", j(code)}, {"expected", j(al::to_string(out.return_code))}, {"rest", j(static_cast<bool>(std::getline(s, line)))}});
}
static void arbitrary(Rng &rng, const Args &args) {
  label("arbitrary functions");
  for (int i = 0; i < args.scale(150, 2500); ++i) {
    Keys groups;
    const int n = i % 30 == 7 ? rng.range(20, 60) : rng.chance(1, 10) ? rng.range(0, 2) : rng.range(3, 10);
    for (int k = 0; k < n; ++k)
      groups.push_back(100 - 7 * k);
    const auto f = functions(rng.next(), rng.pick(std::vector<int>{0, 0, 3, 6, 10}), rng.coin());
    const auto sample = static_cast<std::size_t>(rng.chance(1, 8) ? rng.range(0, 12) : rng.range(1, std::max(1, n - 1)));
    const auto min = static_cast<std::size_t>(rng.chance(1, 8) ? rng.range(0, 12) : rng.range(static_cast<int>(sample), std::max<int>(static_cast<int>(sample), n - 1)));
    const auto max = static_cast<std::size_t>(rng.chance(1, 10) ? 0 : rng.size(1, 24, 80, 20));
    const auto failed = static_cast<std::size_t>(rng.chance(1, 4) ? 0 : rng.range(1, 12));
    const double threshold = rng.pick(std::vector<double>{1., 0., -2., -HUGE_VAL, HUGE_VAL, NAN, 1., 1.});
    al::RansacOutput<int> out;
    if (rng.coin()) {
      log_begin(groups, threshold, sample, min, max, failed);
      out = al::ransac(f, groups, threshold, sample, min, max, failed);
    } else {
      al::GroupIndexer<int> indexer;
      for (const int g : groups)
        indexer[g] = {static_cast<std::size_t>(g)};
      const bool with_config = rng.coin();
      log_begin(groups, threshold, sample, min, max, with_config ? failed : max);
      out = with_config ? al::ransac(f, indexer, al::RansacConfig(threshold, sample, min, max, failed)) : al::ransac(f, indexer, threshold, sample, min, max);
    }
    log_output(out, [&](std::size_t, const al::RansacIteration<int> &it) { return ask(f, groups, it); });
    if (i % 5 == 0)
      printed(out);
    // comparing results
    auto same = [&](const char *what, const al::RansacOutput<int> &other, bool expected) {
      step({{"op", j("same")}, {"what", j(what)}, {"equal", j(out == other)}, {"expected", j(expected)}});
    };
    auto other = out;
    bool numbers = true; // metrics that are not numbers differ from themselves
    for (const auto &it : out.iterations)
      for (const auto &m : {it.inliers, it.outliers})
        for (const auto &p : m)
          numbers = numbers && !std::isnan(p.second);
    if (numbers)
      same("a copy differs", other, true);
    other.best.consensus_metric_value = 12345.;
    same("outputs with different best metrics are equal", other, false);
    other = out;
    other.best.candidates.push_back(-1);
    same("outputs with different best candidates are equal", other, false);
    other = out;
    other.return_code = al::RANSAC_RETURN_CODE_FAILURE;
    same("outputs with different codes are equal", other, false);
    other = out;
    other.iterations.emplace_back();
    same("outputs with different iterations are equal", other, false);
    other = out;
    other.best.inliers[-5] = 1.;
    same("outputs with different best inliers are equal", other, false);
    end_behaviour();
  }
}
int main(int argc, char **argv) {
  const Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  scripts(args.in);
  arbitrary(rng, args);
  ransac_gp(rng, args);
  return finish();
}
