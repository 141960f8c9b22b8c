#include <albatross/Common>
#include <albatross/utils/MapUtils>
#include <albatross/src/utils/map_utils.hpp>
#include "common.hpp"
#include "input.hpp"
#include <unordered_map>
using namespace verif;
using namespace albatross;

template <typename M> J pairs(const M &m) {
  std::vector<J> o;
  for (const auto &kv : m)
    o.push_back(arr({j(static_cast<long long>(kv.first)), j(kv.second)}));
  return arr(o);
}
struct Call {
  std::vector<std::vector<int>> *calls;
  int operator()(int k, int a, int b) const {
    calls->push_back({k, a, b});
    return 10000 * k + 100 * a + b;
  }
};
struct Call2 {
  int operator()(int a, int b) const { return 100 * a - b; }
};

template <typename A, typename B>
void binary(const A &a, const B &b, const std::string &cmp, bool single_type) {
  label("maps cmp=" + cmp + " a=" + pairs(a).s.substr(0, 90) + " b=" + pairs(b).s.substr(0, 90));
  const J ja = pairs(a), jb = pairs(b);
  auto emit = [&](const std::string &op, J out, Fields extra = {}) {
    Fields f = {{"op", j(op)}, {"cmp", j(cmp)}, {"a", ja}, {"b", jb}, {"out", out},
                {"a_after", pairs(a)}, {"b_after", pairs(b)}};
    f.insert(f.end(), extra.begin(), extra.end());
    single(f);
  };
  emit("difference", pairs(map_difference(a, b)));
  emit("symmetric_difference", pairs(map_symmetric_difference(a, b)));
  emit("union", pairs(map_union(a, b)), {{"merge", j("left")}});
  emit("union", pairs(map_union(a, b, ReturnRight{})), {{"merge", j("right")}});
  emit("union", pairs(map_union(a, b, Call2{})), {{"merge", j("ab")}});
  {
    std::vector<std::vector<int>> calls;
    J out = pairs(map_union(a, b, Call{&calls}));
    emit("union", out, {{"merge", j("kab")}, {"calls", j(calls)}});
  }
  emit("intersect", pairs(map_intersect(a, b)), {{"merge", j("pair")}});
  emit("intersect", pairs(map_intersect(a, b, ReturnLeft{})), {{"merge", j("left")}});
  emit("intersect", pairs(map_intersect(a, b, ReturnRight{})), {{"merge", j("right")}});
  emit("intersect", pairs(map_intersect(a, b, Call2{})), {{"merge", j("ab")}});
  {
    std::vector<std::vector<int>> calls;
    J out = pairs(map_intersect(a, b, Call{&calls}));
    emit("intersect", out, {{"merge", j("kab")}, {"calls", j(calls)}});
  }
  emit("difference_keys", j(map_difference_keys(a, b)));
  emit("intersect_keys", j(map_intersect_keys(a, b)));
  const auto bk = map_keys(b);
  emit("subset_sorted", pairs(map_subset_sorted(a, bk)), {{"ks", j(bk)}});
}

template <typename A> void same_type(const A &a, const A &b, const std::string &cmp, Rng &rng) {
  const J ja = pairs(a), jb = pairs(b);
  auto emit = [&](const std::string &op, J out, Fields extra = {}) {
    Fields f = {{"op", j(op)}, {"cmp", j(cmp)}, {"a", ja}, {"b", jb}, {"out", out},
                {"a_after", pairs(a)}, {"b_after", pairs(b)}};
    f.insert(f.end(), extra.begin(), extra.end());
    single(f);
  };
  emit("join", pairs(map_join(a, b)));
  bool disjoint = true;
  for (const auto &kv : a)
    disjoint = disjoint && b.count(kv.first) == 0;
  if (disjoint)
    emit("join_strict", pairs(map_join_strict(a, b)));
  emit("keys", j(map_keys(a)));
  emit("values", j(map_values(a)));
  std::set<int> probe;
  for (const auto &kv : a)
    probe.insert(kv.first);
  for (const auto &kv : b)
    probe.insert(kv.first);
  probe.insert(-1);
  for (int k : probe) {
    emit("contains", j(map_contains(a, k)), {{"k", j(k)}});
    emit("at_or", j(map_at_or(a, k, 77)), {{"k", j(k)}, {"alt", j(77)}});
    emit("at_or_default", j(map_at_or(a, k)), {{"k", j(k)}});
    if (probe.size() > 12 && rng.chance(2, 3))
      break;
  }
}

// ordered by something only known at run time
struct Directed {
  bool down = false;
  bool operator()(int x, int y) const { return down ? y < x : x < y; }
};

inline bool plain_before(int x, int y) { return y < x; }

template <typename C> void ordered(const std::map<int, int> &a0, const std::map<int, int> &b0, const std::string &cmp, Rng &rng, C by = C{}) {
  std::map<int, int, C> a(a0.begin(), a0.end(), by), b(b0.begin(), b0.end(), by);
  binary(a, b, cmp, true);
  same_type(a, b, cmp, rng);
  std::set<int, C> ks(by);
  for (const auto &kv : b)
    ks.insert(kv.first);
  const J ja = pairs(a);
  single({{"op", j("subset")}, {"cmp", j(cmp)}, {"a", ja}, {"ks", j(ks)}, {"out", pairs(map_subset(a, ks))}, {"a_after", pairs(a)}});
  // repeated, sorted keys in vector, list-like and deque containers
  std::vector<int> rep;
  for (int k : ks)
    for (int n = rng.range(1, 3); n-- > 0;)
      rep.push_back(k);
  single({{"op", j("subset_sorted")}, {"cmp", j(cmp)}, {"a", ja}, {"ks", j(rep)}, {"out", pairs(map_subset_sorted(a, rep))}, {"a_after", pairs(a)}});
  std::deque<int> dq(rep.begin(), rep.end());
  single({{"op", j("subset_sorted")}, {"cmp", j(cmp)}, {"a", ja}, {"ks", j(rep)}, {"out", pairs(map_subset_sorted(a, dq))}, {"a_after", pairs(a)}});
}

void mixed_keys(const std::map<int, int> &a0, const std::map<int, int> &b0) {
  // different key types ordered by one transparent comparator
  std::map<int, int, std::less<>> a(a0.begin(), a0.end());
  std::map<short, int, std::less<>> b;
  for (const auto &kv : b0)
    b[static_cast<short>(kv.first)] = kv.second;
  binary(a, b, "asc", false);
}

void hashed(const std::map<int, int> &a0, const std::map<int, int> &b0, Rng &rng) {
  std::unordered_map<int, int> a(a0.begin(), a0.end()), b(b0.begin(), b0.end());
  same_type(a, b, "hash", rng);
}

int main(int argc, char **argv) {
  Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  auto all = [&](const std::map<int, int> &a, const std::map<int, int> &b) {
    ordered<std::less<int>>(a, b, "asc", rng);
    ordered<std::greater<int>>(a, b, "desc", rng);
    ordered<Directed>(a, b, "desc", rng, Directed{true});
    ordered<bool (*)(int, int)>(a, b, "desc", rng, plain_before);
    mixed_keys(a, b);
    hashed(a, b, rng);
  };
  auto conv = [](const Json &m) {
    std::map<int, int> o;
    for (const auto &kv : m)
      o[kv[0]] = kv[1];
    return o;
  };
  for (const auto &in : read_inputs(args.in))
    all(conv(in["a"]), conv(in["b"]));
  for (int n = 0; n < args.scale(60, 600); ++n) {
    std::map<int, int> a, b;
    // every few rounds far larger maps, some of them facing an empty or a tiny one
    const int lim = n % 20 == 19 ? 90 : n % 30 == 7 ? 200 : 24;
    int na = rng.range(0, lim / 2), nb = rng.range(0, lim / 2);
    if (lim == 90)
      (n % 40 == 19 ? na : nb) = 0;
    if (lim > 24)
      (na > nb ? na : nb) = 45;
    for (int m = 0; m < na; ++m)
      a[rng.range(-lim, lim)] = rng.range(0, 9) ? rng.range(-50, 99) : 0;
    for (int m = 0; m < nb; ++m)
      b[rng.range(-lim, lim)] = rng.range(-50, 99);
    if (rng.chance(1, 4) && !a.empty()) // overlap, some values equal on both sides
      for (const auto &kv : a)
        if (rng.coin())
          b[kv.first] = kv.second;
    all(a, b);
  }
  return finish();
}
