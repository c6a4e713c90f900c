// Conversions between the types of the code under test and reals or vectors in
// extended precision, in SI units.
#pragma once

#include <algorithm>
#include <string>
#include <type_traits>

#include "geometry/grassmann.hpp"
#include "geometry/instant.hpp"
#include "geometry/point.hpp"
#include "geometry/r3_element.hpp"
#include "linear.hpp"
#include "pbt.hpp"
#include "quantities/named_quantities.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"

namespace convert {

using principia::geometry::_grassmann::Multivector;
using principia::geometry::_instant::Instant;
using principia::geometry::_point::Point;
using principia::geometry::_r3_element::R3Element;
using principia::quantities::_quantities::Quantity;
using ref::Norm;
using ref::Real;
using ref::Vec;
namespace si = principia::quantities::_si;

constexpr Real ε = 1.2e-16L;

inline Real In(double const x) { return x; }
template<typename D>
Real In(Quantity<D> const& q) {
  return static_cast<Real>(q / si::Unit<Quantity<D>>);
}
inline Real In(Instant const& t) { return In(t - Instant()); }
inline Instant At(double const t) { return Instant() + t * si::Second; }

template<typename T>
struct Kind {  // Scalars.
  static constexpr int dimension = 1;
  static T Make(Vec const& v) {
    if constexpr (std::is_same_v<T, double>) {
      return static_cast<double>(v[0]);
    } else {
      return static_cast<double>(v[0]) * si::Unit<T>;
    }
  }
  static Vec Of(T const& x) { return {In(x), 0, 0}; }
};
template<typename Q>
struct Kind<R3Element<Q>> {
  static constexpr int dimension = 3;
  static R3Element<Q> Make(Vec const& v) {
    return {Kind<Q>::Make({v[0]}), Kind<Q>::Make({v[1]}),
            Kind<Q>::Make({v[2]})};
  }
  static Vec Of(R3Element<Q> const& e) { return {In(e.x), In(e.y), In(e.z)}; }
};
template<typename Q, typename F>
struct Kind<Multivector<Q, F, 1>> {
  static constexpr int dimension = 3;
  static Multivector<Q, F, 1> Make(Vec const& v) {
    return Multivector<Q, F, 1>(Kind<R3Element<Q>>::Make(v));
  }
  static Vec Of(Multivector<Q, F, 1> const& x) {
    return Kind<R3Element<Q>>::Of(x.coordinates());
  }
};
template<typename Q, typename F>
struct Kind<Multivector<Q, F, 2>> {
  static constexpr int dimension = 3;
  static Multivector<Q, F, 2> Make(Vec const& v) {
    return Multivector<Q, F, 2>(Kind<R3Element<Q>>::Make(v));
  }
  static Vec Of(Multivector<Q, F, 2> const& x) {
    return Kind<R3Element<Q>>::Of(x.coordinates());
  }
};
template<typename V>
struct Kind<Point<V>> {
  static constexpr int dimension = Kind<V>::dimension;
  static Point<V> Make(Vec const& v) { return Point<V>{} + Kind<V>::Make(v); }
  static Vec Of(Point<V> const& p) { return Kind<V>::Of(p - Point<V>{}); }
};

template<typename T>
T Make(Vec const& v) {
  return Kind<T>::Make(v);
}
template<typename T>
Vec Of(T const& x) {
  return Kind<T>::Of(x);
}

inline Vec Rounded(Vec const& v) {
  return {static_cast<double>(v[0]), static_cast<double>(v[1]),
          static_cast<double>(v[2])};
}
inline void ExpectVec(Vec const& actual, Vec const& expected,
                      Real const tolerance, std::string const& what) {
  REQUIRE(Norm(actual - expected) <= tolerance,
          what << ": " << actual << ", not " << expected << ", off by "
               << Norm(actual - expected) << ", tolerance " << tolerance);
}
inline void ExpectReal(Real const actual, Real const expected,
                       Real const tolerance, std::string const& what) {
  REQUIRE(std::abs(actual - expected) <= tolerance,
          what << ": " << actual << ", not " << expected << ", off by "
               << std::abs(actual - expected) << ", tolerance " << tolerance);
}

}  // namespace convert
