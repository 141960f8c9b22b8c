#include "lc_check.hpp"
void lc_c(Rng &rng, const Args &args) {
  process<double>(se(2., 1.5), zero_mean(), rng, args);
  process<double>(se(2., 1.5) + cst(2.), linear_mean(0.5, -1.), rng, args);
  process<VDS>(cross(0.5) + cst(2.) + nugget(1.), linear_mean(0.5, 2.) + site_mean(1.5), rng, args);
  process<VDS>(cst(2.) * m32(3., 1.) + noise<Site>(1.), linear_mean(0.5, 2.) * site_mean(1.5), rng, args);
}
