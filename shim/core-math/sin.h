// Stand-in for INRIA's core-math cr_sin: computed in binary128 by libquadmath and
// rounded, which is the correctly rounded result except with probability of
// the order of 2^-55 per argument.
#pragma once
extern "C" __float128 sinq(__float128);
inline double cr_sin(double x) {
  return static_cast<double>(sinq(static_cast<__float128>(x)));
}
