// Stand-in for INRIA's core-math cr_cos: computed in binary128 by libquadmath and
// rounded, which is the correctly rounded result except with probability of
// the order of 2^-55 per argument.
#pragma once
extern "C" __float128 cosq(__float128);
inline double cr_cos(double x) {
  return static_cast<double>(cosq(static_cast<__float128>(x)));
}
