#include "sgp_check.hpp"
int main(int argc, char **argv) {
  const Args args = parse_args(argc, argv);
  Rng rng(args.seed);
  sgp_c(args.in, rng, args);
  sgp_a(rng, args);
  sgp_b(rng, args);
  return finish();
}
