#include "cv_check.hpp"
int main(int argc, char **argv) {
  const Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  std::vector<Ks> all;
  for (const auto &in : read_inputs(args.in)) {
    Ks keys;
    for (const auto &k : in.at("keys"))
      keys.push_back(k.get<int>());
    all.push_back(keys);
  }
  cv_gp(rng, args, all);
  cv_generic(rng, args, all);
  return finish();
}
