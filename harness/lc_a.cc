#include "lc_check.hpp"
void lc_a(Rng &rng, const Args &args) {
  combinations(se(2., 1.5), rng, args, true);
  combinations(cst(3.), rng, args, true);
  combinations(cst(3.) + cross(0.5), rng, args, true);
  combinations(cross(0.5) * cst(2.) + m32(2., 1.), rng, args, true);
  combinations(nugget(0.5) + expo(2., 1.5), rng, args, true);
}
