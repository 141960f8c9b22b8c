#include <albatross/Common>
#include <albatross/Graph>
#include "common.hpp"
#include "input.hpp"
using namespace verif;
using namespace albatross;

inline std::string name(int v) { return std::to_string(v); }
inline std::string name(const std::string &v) { return v; }

template <typename V> J je(const Edge<V> &e) {
  return arr({j(name(e.a)), j(name(e.b)), j(e.cost), j(e.id)});
}
template <typename V> J jes(const std::vector<Edge<V>> &es) {
  std::vector<J> o;
  for (const auto &e : es)
    o.push_back(je(e));
  return arr(o);
}
template <typename V> J jvs(const std::set<V> &vs) {
  std::vector<J> o;
  for (const auto &v : vs)
    o.push_back(j(name(v)));
  return arr(o);
}

template <typename V> void exercise(const std::vector<Edge<V>> &edges, bool all) {
  label("graph " + jes(edges).s.substr(0, 200));
  const Graph<V> g = create_graph(edges);
  auto emit = [&](const std::string &op, const Graph<V> &out) {
    single({{"op", j(op)}, {"edges", jes(g.edges)}, {"vertices", jvs(g.vertices)},
            {"out", jes(out.edges)}, {"out_vertices", jvs(out.vertices)}});
  };
  emit("min_forest", minimum_spanning_forest(g));
  emit("max_forest", maximum_spanning_forest(g));
  emit("min_tree", minimum_spanning_tree(g));
  emit("max_tree", maximum_spanning_tree(g));
  if (!all)
    return;
  single({{"op", j("create")}, {"edges", jes(edges)}, {"out", jes(g.edges)}, {"out_vertices", jvs(g.vertices)}});
  std::vector<J> adj;
  for (const auto &kv : adjacency_map(g))
    adj.push_back(arr({j(name(kv.first)), jes(kv.second)}));
  single({{"op", j("adjacency")}, {"edges", jes(edges)}, {"out", arr(adj)}});
  Graph<V> h;
  for (const auto &e : edges) {
    const auto before = h;
    add_edge(e, &h);
    single({{"op", j("add_edge")}, {"edges", jes(before.edges)}, {"vertices", jvs(before.vertices)}, {"edge", je(e)},
            {"out", jes(h.edges)}, {"out_vertices", jvs(h.vertices)}});
    single({{"op", j("contains_vertex")}, {"v", j(name(e.a))}, {"vertices", jvs(before.vertices)},
            {"out", j(contains_vertex(before, e.a))}});
  }
  std::ostringstream os, sink;
  auto *old = std::cout.rdbuf(sink.rdbuf());
  os << g;
  std::cout.rdbuf(old);
  single({{"op", j("print")}, {"edges", jes(edges)}, {"out", j(os.str())}});
}

int main(int argc, char **argv) {
  Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  for (const auto &in : read_inputs(args.in)) {
    std::vector<Edge<int>> es;
    for (const auto &e : in["edges"])
      es.emplace_back(std::stoi(e[0].get<std::string>()), std::stoi(e[1].get<std::string>()),
                      std::stod(e[2].get<std::string>()), e[3].get<int>());
    exercise(es, es.size() < 3);
  }
  for (int n = 0; n < args.scale(700, 6000); ++n) {
    const int nv = n % 25 == 24 ? rng.range(12, 30) : rng.range(1, 8);
    const int ne = rng.range(0, nv < 12 ? 14 : 70);
    const int style = rng.range(0, 3); // few ties .. all equal
    std::vector<Edge<int>> es;
    std::vector<Edge<std::string>> ss;
    const bool connected = rng.coin();
    auto cost = [&]() {
      switch (style) {
      case 0: return rng.dyadic(-400, 400);
      case 1: return double(rng.range(-2, 2));
      case 2: return 1.0;
      default: return rng.range(0, 3) * 0.5;
      }
    };
    const bool loops = rng.chance(1, 3);
    auto add = [&](int a, int b) {
      if (a == b && !loops)
        return;
      es.emplace_back(a, b, cost(), es.size() + 1);
    };
    if (connected)
      for (int v = 1; v < nv; ++v) {
        const int w = rng.range(0, v - 1);
        rng.coin() ? add(v, w) : add(w, v);
      }
    for (int m = 0; m < ne; ++m)
      add(rng.range(0, nv - 1), rng.range(0, nv - 1));
    rng.shuffle(es);
    exercise(es, n % 10 == 0);
    if (n % 3 == 0) {
      for (const auto &e : es)
        ss.emplace_back(std::string(1, char('z' - e.a % 26)) + std::to_string(e.a),
                        std::string(1, char('z' - e.b % 26)) + std::to_string(e.b), e.cost, e.id);
      exercise(ss, false);
    }
  }
  return finish();
}
