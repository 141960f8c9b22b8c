#include <albatross/Common>
#include "common.hpp"
#include "input.hpp"
#include <sys/wait.h>
#include <zstd.h>
using namespace verif;
namespace az = albatross::zstd;

J blob(const void *p, std::size_t n) {
  const unsigned char *c = static_cast<const unsigned char *>(p);
  if (n <= 64) {
    std::string h;
    char b[4];
    for (std::size_t i = 0; i < n; ++i) {
      snprintf(b, sizeof b, "%02x", c[i]);
      h += b;
    }
    return j(h);
  }
  uint64_t h1 = 1469598103934665603ULL, h2 = 88172645463325252ULL;
  for (std::size_t i = 0; i < n; ++i) {
    h1 = (h1 ^ c[i]) * 1099511628211ULL;
    h2 = (h2 + c[i]) * 6364136223846793005ULL + 1442695040888963407ULL;
  }
  char b[80];
  snprintf(b, sizeof b, "%zu:%016llx%016llx", n, (unsigned long long)h1, (unsigned long long)h2);
  return j(std::string(b));
}
J blob(const std::string &s) { return blob(s.data(), s.size()); }

bool dies(const std::function<void()> &f) {
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    signal(SIGABRT, SIG_DFL);
    fclose(stderr);
    try {
      f();
    } catch (...) {
      _exit(9);
    }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}

template <typename T> void array_case(const std::vector<T> &v, std::size_t n, int level, Rng &rng, bool forks) {
  label("array n=" + std::to_string(n) + " level=" + std::to_string(level));
  const std::string z = az::compress(v.data(), n, level);
  auto guarded = [&](std::size_t m, bool &ok, bool &guard, bool maybe) {
    std::vector<unsigned char> raw(m * sizeof(T) + 64, 0xAB);
    T *dst = reinterpret_cast<T *>(raw.data() + 32);
    if (maybe)
      ok = az::maybe_decompress(z, dst, m);
    else
      az::decompress(z, dst, m);
    guard = true;
    for (int i = 0; i < 32; ++i)
      guard = guard && raw[i] == 0xAB && raw[raw.size() - 1 - i] == 0xAB;
    return std::string(reinterpret_cast<char *>(raw.data()) + 32, m * sizeof(T));
  };
  bool ok = false, g1 = false, g2 = false;
  const std::string o1 = guarded(n, ok, g1, false);
  const std::string o2 = guarded(n, ok, g2, true);
  single({{"op", j("array")}, {"esize", j(sizeof(T))}, {"n", j(n)}, {"level", j(level)},
          {"data", blob(v.data(), n * sizeof(T))}, {"out", blob(o1)}, {"maybe_ok", j(ok)},
          {"maybe_out", blob(o2)}, {"guard", j(g1 && g2)}});
  for (std::size_t m : {n + 1, n / 2, n - 1, 2 * n}) {
    if (m == n || m > 4 * n + 4)
      continue;
    bool okw = false, g = false;
    guarded(m, okw, g, true);
    const bool died = forks ? dies([&] { std::vector<T> d(m + 1); az::decompress(z, d.data(), m); }) : true;
    single({{"op", j("array_wrong_size")}, {"n", j(n)}, {"m", j(m)}, {"maybe_ok", j(okw)}, {"guard", j(g)}, {"died", j(died)}});
  }
}

std::string payload(int kind, std::size_t n, Rng &rng) {
  std::string s(n, '\0');
  for (std::size_t i = 0; i < n; ++i)
    switch (kind) {
    case 0: s[i] = char(rng.next()); break;
    case 1: s[i] = 'a'; break;
    case 2: s[i] = char('A' + i % 7); break;
    case 3: s[i] = rng.chance(1, 50) ? char(rng.next()) : '\0'; break;
    default: s[i] = char(rng.range('a', 'd'));
    }
  return s;
}

void roundtrip(const std::string &data, int level, bool deflt) {
  label("roundtrip n=" + std::to_string(data.size()) + " level=" + std::to_string(level));
  const J before = blob(data);
  const std::string z = deflt ? az::compress(data) : az::compress(data, level);
  const std::string out = az::decompress(z);
  std::string mo = data.size() % 2 ? std::string("previous contents, longer than some payloads") : std::string();
  const bool ok = az::maybe_decompress(z, &mo);
  single({{"op", j("roundtrip")}, {"n", j(data.size())}, {"level", j(level)}, {"data", before}, {"out", blob(out)},
          {"maybe_ok", j(ok)}, {"maybe_out", blob(mo)}, {"data_after", blob(data)}});
}

void damaged(const std::string &z, const std::string &kind, bool forks) {
  label("damaged kind=" + kind + " frame=" + blob(z).s);
  // reference: zstd itself
  const unsigned long long sz = ZSTD_getFrameContentSize(z.data(), z.size());
  const bool known = sz != ZSTD_CONTENTSIZE_UNKNOWN && sz != ZSTD_CONTENTSIZE_ERROR;
  const bool huge = known && sz > (1ULL << 24);
  if (huge && sz < (1ULL << 63))
    return; // would ask for more memory than the sandbox has
  std::string ref;
  bool ref_ok = false;
  if (known && !huge) {
    ref.resize(sz);
    const std::size_t r = ZSTD_decompress(&ref[0], sz, z.data(), z.size());
    ref_ok = !ZSTD_isError(r) && r == sz;
  }
  bool ok = false, threw = false, aok = false, guard = true;
  std::string out, araw;
  try {
    ok = az::maybe_decompress(z, &out);
    std::string raw((known && !huge ? sz : 5) + 64, char(0xAB));
    aok = az::maybe_decompress(z, reinterpret_cast<uint8_t *>(&raw[32]), raw.size() - 64);
    for (int i = 0; i < 32; ++i)
      guard = guard && raw[i] == char(0xAB) && raw[raw.size() - 1 - i] == char(0xAB);
    araw = raw.substr(32, raw.size() - 64);
  } catch (const std::exception &) {
    threw = true;
  }
  Fields f = {{"op", j("damaged")}, {"kind", j(kind)}, {"frame", blob(z)}, {"ref_ok", j(ref_ok)}, {"ref_out", blob(ref_ok ? ref : "")},
          {"threw", j(threw)}, {"maybe_ok", j(ok)}, {"maybe_out", blob(ok ? out : "")}, {"array_ok", j(aok)},
          {"array_out", blob(aok ? araw : "")}, {"guard", j(guard)}};
  if (forks && !huge)
    f.push_back({"died", j(dies([&] { (void)az::decompress(z); }))});
  single(f);
}

int main(int argc, char **argv) {
  Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  int count = 0;
  for (const auto &p : read_inputs(args.in)) {
    const std::size_t len = p["len"];
    const int level = p["level"], at = p["at"];
    const std::string kind = p["kind"];
    std::string z = az::compress(payload(at % 5, len, rng), level);
    if (kind == "truncate")
      z.resize(z.size() > std::size_t(at) + 1 ? z.size() - at - 1 : 0);
    else if (kind == "prefix")
      z.resize(std::min<std::size_t>(at, z.size() - 1));
    else if (kind == "append")
      z += std::string(at + 1, char(at * 37));
    else if (kind == "flip")
      z[at % z.size()] ^= char(1 << (at % 8));
    else if (kind == "zero")
      z[at % z.size()] = 0;
    else if (kind == "duplicate")
      z += z;
    damaged(z, kind, ++count % 7 == 0);
  }
  // arbitrary bytes and crafted headers
  damaged("", "arbitrary", true);
  damaged("albatross", "arbitrary", true);
  {
    // valid magic, single segment, 8-byte content size field set to the maximum
    std::string z("\x28\xb5\x2f\xfd\xe0", 5);
    z += std::string("\xf0\xff\xff\xff\xff\xff\xff\xff", 8);
    z += std::string("\x01\x00\x00", 3);
    damaged(z, "arbitrary", false);
  }
  { // content size unknown: streaming frame without the size
    ZSTD_CCtx *c = ZSTD_createCCtx();
    ZSTD_CCtx_setParameter(c, ZSTD_c_contentSizeFlag, 0);
    std::string in = payload(2, 500, rng), z(ZSTD_compressBound(500), '\0');
    z.resize(ZSTD_compress2(c, &z[0], z.size(), in.data(), in.size()));
    ZSTD_freeCCtx(c);
    damaged(z, "arbitrary", true);
  }
  for (int n = 0; n < args.scale(400, 4000); ++n) {
    std::string z = rng.coin() ? payload(0, rng.range(0, 40), rng) : az::compress(payload(rng.range(0, 4), rng.range(0, 600), rng), rng.range(-5, 19));
    std::string kind = "arbitrary";
    switch (rng.range(0, 4)) {
    case 0: if (!z.empty()) z[rng.range(0, int(z.size()) - 1)] = char(rng.next()); break;
    case 1: if (z.size() > 4 && z.compare(0, 4, "\x28\xb5\x2f\xfd") == 0) { z.resize(rng.range(0, int(z.size()) - 1)); kind = "truncate"; } break;
    case 2: z += payload(0, rng.range(1, 9), rng); break;
    case 3: if (z.size() > 6) z.erase(rng.range(4, int(z.size()) - 1), 1); break;
    default: break;
    }
    damaged(z, kind, n % 16 == 0);
  }
  // round trips over sizes, contents and levels
  std::vector<std::size_t> sizes = {0, 1, 2, 3, 7, 8, 15, 16, 31, 255, 256, 257, 511, 1000, 1023, 1024, 4096, 65535, 65536, 131071, 131072, 131073, 262145, 1000003, 1048576, 1048577, 3145729};
  for (std::size_t n : sizes)
    for (int kind = 0; kind < 5; ++kind) {
      const std::string d = payload(kind, n, rng);
      roundtrip(d, 3, true);
      for (int level : n > 70000 ? std::vector<int>{-100, 1, 9} : std::vector<int>{-131072, -100, -1, 0, 1, 2, 5, 12, 19, 22})
        roundtrip(d, level, false);
    }
  for (int n = 0; n < args.scale(500, 5000); ++n)
    roundtrip(payload(rng.range(0, 4), rng.range(0, n % 40 == 0 ? 300000 : 3000), rng), rng.range(-10, 16), n % 4 == 0);
  auto arrays = [&](auto tag, int reps) {
    using T = decltype(tag);
    for (int n = 0; n < reps; ++n) {
      std::vector<T> v(rng.range(1, n % 9 == 8 ? 40000 : 200));
      unsigned char *raw = reinterpret_cast<unsigned char *>(v.data());
      const std::string d = payload(rng.range(0, 4), v.size() * sizeof(T), rng);
      std::memcpy(raw, d.data(), d.size());
      array_case(v, n % 3 == 0 ? v.size() : rng.range(0, int(v.size())), rng.range(-3, 9), rng, n % 5 == 0);
    }
  };
  const int reps = args.scale(14, 120);
  arrays(uint8_t(), reps), arrays(int16_t(), reps), arrays(uint32_t(), reps), arrays(int64_t(), reps);
  arrays(float(), reps), arrays(double(), reps);
  struct Pod { double a; int b; char c[3]; };
  arrays(Pod(), reps);
  return finish();
}
