// Quantities: dimensional algebra, units, text and serialized forms.
#include <array>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <limits>
#include <sstream>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "fatal.hpp"
#include "numerics/elementary_functions.hpp"
#include "pbt.hpp"
#include "quantities/astronomy.hpp"
#include "quantities/bipm.hpp"
#include "quantities/cgs.hpp"
#include "quantities/constants.hpp"
#include "quantities/named_quantities.hpp"
#include "quantities/numbers.hpp"
#include "quantities/parser.hpp"
#include "quantities/quantities.hpp"
#include "quantities/serialization.hpp"
#include "quantities/si.hpp"
#include "quantities/tuples.hpp"
#include "quantities/uk.hpp"
#include "serialization/numerics.pb.h"
#include "serialization/quantities.pb.h"

extern "C" __float128 powq(__float128, __float128);

using namespace principia::quantities::_quantities;
using namespace principia::quantities::_named_quantities;
using namespace principia::base::_algebra;
using principia::quantities::_dimensions::Dimensions;
namespace si = principia::quantities::_si;
namespace qa = principia::quantities::_astronomy;
namespace qb = principia::quantities::_bipm;
namespace qc = principia::quantities::_cgs;
using principia::quantities::_quantities::internal::SIUnit;
namespace qk = principia::quantities::_constants;
namespace qu = principia::quantities::_uk;
namespace ef = principia::numerics::_elementary_functions;
using pbt::Ctx;
using pbt::Src;

namespace {

bool Same(double a, double b) {
  return (std::isnan(a) && std::isnan(b)) ||
         (a == b && std::signbit(a) == std::signbit(b));
}

double AnyDouble(Src& s) {
  switch (s.below(5)) {
    case 0: return static_cast<double>(s.range(-10, 10));
    case 1: return s.slog(1e-300, 1e300);
    case 2: return s.sym(100);
    case 3: return s.slog(1e-10, 1e10);
    default: {
      static constexpr double special[] = {
          0.0, -0.0, 1.0, -1.0, INFINITY, -INFINITY, NAN, 5e-324,
          std::numeric_limits<double>::max(),
          std::numeric_limits<double>::min()};
      return special[s.below(std::size(special))];
    }
  }
}

// A table of types with pseudo-random dimensions.
constexpr std::int64_t Pick(int type, int position, int lo, int hi) {
  std::uint64_t z = 0x9E3779B97F4A7C15ull * (type * 8 + position + 1);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  z ^= z >> 31;
  // A third of the exponents are 0, some are at the limits.
  std::uint64_t const k = z >> 59;
  if (k < 10) return 0;
  if (k == 10) return lo;
  if (k == 11) return hi;
  if (k < 20) return static_cast<std::int64_t>(z % 5) - 2;
  return lo + static_cast<std::int64_t>(z % (hi - lo + 1));
}

template<int t, int lo, int hi>
using D = Dimensions<Pick(t, 0, lo, hi), Pick(t, 1, lo, hi), Pick(t, 2, lo, hi),
                     Pick(t, 3, lo, hi), Pick(t, 4, lo, hi), Pick(t, 5, lo, hi),
                     Pick(t, 6, lo, hi), Pick(t, 7, lo, hi)>;

using Exponents = std::array<std::int64_t, 8>;

template<int t, int lo, int hi>
Exponents E() {
  return {Pick(t, 0, lo, hi), Pick(t, 1, lo, hi), Pick(t, 2, lo, hi),
          Pick(t, 3, lo, hi), Pick(t, 4, lo, hi), Pick(t, 5, lo, hi),
          Pick(t, 6, lo, hi), Pick(t, 7, lo, hi)};
}

std::string UnitText(Exponents const& e) {
  static char const* const names[] = {"m", "kg", "s", "A", "K", "mol", "cd",
                                      "rad"};
  std::string result;
  for (int i = 0; i < 8; ++i) {
    if (e[i] == 0) continue;
    if (!result.empty()) result += " ";
    result += names[i];
    if (e[i] != 1) result += "^" + std::to_string(e[i]);
  }
  return result;
}

std::string NumberText(double const x, int const precision) {
  char buffer[2000];
  std::snprintf(buffer, sizeof(buffer), "%+.*e", precision, x);
  return buffer;
}

// Checks the value and the dimensions of a computed quantity.
template<typename Q>
void Expect(Q const& q, double const value, Exponents const& e,
            char const* const what) {
  std::string const unit = UnitText(e);
  std::string const expected =
      NumberText(value, 17) + (unit.empty() ? "" : " " + unit);
  std::string const actual = DebugString(q);
  if (std::isnan(value)) {
    REQUIRE(actual.ends_with(unit), what << ": " << actual);
  } else {
    REQUIRE(actual == expected, what << ": " << actual << ", not " << expected);
  }
}

struct TypeTest {
  void (*algebra)(double, double, double);
  void (*serialization)(double);
  void (*text)(double, int);
};

template<int t>
void Algebra(double const x, double const y, double const k) {
  using D1 = D<t, -6, 6>;
  using D2 = D<t + 1, -6, 6>;
  using Q1 = Quantity<D1>;
  using Q2 = Quantity<D2>;
  auto const e1 = E<t, -6, 6>();
  auto const e2 = E<t + 1, -6, 6>();
  Q1 const a = x * SIUnit<Q1>();
  Q1 const b = y * SIUnit<Q1>();
  Q2 const c = y * SIUnit<Q2>();
  Exponents sum, difference, inverse, square, cube;
  for (int i = 0; i < 8; ++i) {
    sum[i] = e1[i] + e2[i];
    difference[i] = e1[i] - e2[i];
    inverse[i] = -e1[i];
    square[i] = 2 * e1[i];
    cube[i] = 3 * e1[i];
  }
  Expect(a, x, e1, "value");
  Expect(+a, x, e1, "+");
  Expect(-a, -x, e1, "-");
  Expect(a + b, x + y, e1, "a + b");
  Expect(a - b, x - y, e1, "a - b");
  Expect(a * k, x * k, e1, "a * k");
  Expect(k * a, k * x, e1, "k * a");
  Expect(a / k, x / k, e1, "a / k");
  Expect(k / a, k / x, inverse, "k / a");
  Expect(a * c, x * y, sum, "a * c");
  Expect(a / c, x / y, difference, "a / c");
  REQUIRE(Same(static_cast<double>(a / b), x / y), "a / b");
  REQUIRE(Same(a / SIUnit<Q1>(), x), "a / unit");
  Expect(Square<Q1>(a * b), x * y, square, "square");
  Expect(a * b * a, x * y * x, cube, "cube");
  Q1 m = a;
  m += b;
  Expect(m, x + y, e1, "+=");
  m = a;
  m -= b;
  Expect(m, x - y, e1, "-=");
  m = a;
  m *= k;
  Expect(m, x * k, e1, "*=");
  m = a;
  m /= k;
  Expect(m, x / k, e1, "/=");
  REQUIRE((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) &&
          (a >= b) == (x >= y) && (a == b) == (x == y) && (a != b) == (x != y),
          "comparisons");
  REQUIRE(IsFinite(a) == std::isfinite(x), "IsFinite");
  REQUIRE(Q1{} == 0 * SIUnit<Q1>(), "default");
  REQUIRE(std::isinf(Infinity<Q1> / SIUnit<Q1>()) &&
          Infinity<Q1> > Q1{}, "Infinity");
  REQUIRE(std::isnan(NaN<Q1> / SIUnit<Q1>()), "NaN");
  // Elementary functions.
  Expect(ef::Abs(a), std::abs(x), e1, "Abs");
  Expect(ef::Pow<2>(a), x * x, square, "Pow<2>");
  Expect(ef::Pow<3>(a), x * x * x, cube, "Pow<3>");
  Expect(ef::Pow<-1>(a), 1 / x, inverse, "Pow<-1>");
  Expect(ef::Sqrt(ef::Pow<2>(ef::Abs(b))), std::sqrt(y * y), e1, "Sqrt");
}

template<int t>
void Serialization(double const x) {
  using Q = Quantity<D<t, -24, 7>>;
  auto const e = E<t, -24, 7>();
  Q const q = x * SIUnit<Q>();
  principia::serialization::Quantity message;
  q.WriteToMessage(&message);
  std::int64_t dimensions = 0;
  for (int i = 0; i < 8; ++i) {
    dimensions |= (e[i] & 0x1F) << (5 * i);
  }
  REQUIRE(message.dimensions() == dimensions, "dimensions " << UnitText(e)
          << " " << message.dimensions());
  REQUIRE(Same(message.magnitude(), x));
  std::string const bytes = message.SerializeAsString();
  principia::serialization::Quantity read;
  REQUIRE(read.ParseFromString(bytes));
  Q const r = Q::ReadFromMessage(read);
  REQUIRE(Same(r / SIUnit<Q>(), x), "round trip");
  using R = Quantity<D<t + 1, -24, 7>>;
  if constexpr (!std::is_same_v<Q, R>) {
    REQUIRE(pbt::is_fatal([&] { (void)R::ReadFromMessage(read); }),
            "wrong dimensions accepted");
  }
}

template<int t>
void Text(double const x, int const precision) {
  using Q = Quantity<D<t, -9, 9>>;
  auto const e = E<t, -9, 9>();
  Q const q = x * SIUnit<Q>();
  std::string const unit = UnitText(e);
  std::string const suffix = unit.empty() ? "" : " " + unit;
  std::string const actual = DebugString(q, precision);
  REQUIRE(actual == NumberText(x, precision) + suffix,
          "DebugString: " << actual << " precision " << precision);
  std::ostringstream stream;
  stream << q;
  REQUIRE(stream.str() == NumberText(x, 17) + suffix, "<<: " << stream.str());
  REQUIRE(stream.str() == DebugString(q));
  if (std::isfinite(x)) {
    // 17 significant digits identify the number.
    REQUIRE(Same(std::strtod(DebugString(q).c_str(), nullptr), x), "digits");
  }
}

constexpr int types = 48;

template<int... t>
std::array<TypeTest, sizeof...(t)> MakeTests(
    std::integer_sequence<int, t...>) {
  return {TypeTest{&Algebra<t>, &Serialization<t>, &Text<t>}...};
}

auto const& tests = *new std::array<TypeTest, types>(
    MakeTests(std::make_integer_sequence<int, types>()));

void AlgebraProperty(Src& s, Ctx& c) {
  int const t = static_cast<int>(s.below(types));
  double const x = AnyDouble(s), y = AnyDouble(s), k = AnyDouble(s);
  c.note() << "type " << t << " " << x << " " << y << " " << k;
  c.nontrivial(std::isfinite(x) && std::isfinite(y) && x != 0 && y != 0);
  tests[t].algebra(x, y, k);
}

void SerializationProperty(Src& s, Ctx& c) {
  int const t = static_cast<int>(s.below(types));
  double const x = AnyDouble(s);
  c.note() << "type " << t << " " << x;
  c.nontrivial(x != 0);
  tests[t].serialization(x);
}

void TextProperty(Src& s, Ctx& c) {
  int const t = static_cast<int>(s.below(types));
  double const x = AnyDouble(s);
  int const precision = static_cast<int>(s.below(s.coin() ? 20 : 70));
  c.note() << "type " << t << " " << x << " precision " << precision;
  c.nontrivial(std::isfinite(x) && x != 0);
  tests[t].text(x, precision);
  REQUIRE(DebugString(x, precision) == NumberText(x, precision),
          "double: " << DebugString(x, precision));
}

// ---------------------------------------------------------------- units.

struct NamedUnit {
  char const* name;
  double value;
  double expected;
  double tolerance;  // Relative.
};

#define U(unit, expected) \
  NamedUnit { #unit, (unit) / SIUnit<std::remove_cvref_t<decltype(unit)>>(), \
              static_cast<double>(expected), 8e-16 }
#define UD(unit, expected) \
  NamedUnit { #unit, unit, static_cast<double>(expected), 3e-16 }

long double const pi = 3.141592653589793238462643383279502884L;

std::vector<NamedUnit> const& Units() {
  static auto const& result = *new std::vector<NamedUnit>{
      U(si::Metre, 1), U(si::Kilogram, 1), U(si::Second, 1), U(si::Ampere, 1),
      U(si::Kelvin, 1), U(si::Mole, 1), U(si::Candela, 1), U(si::Radian, 1),
      U(si::Gram, 1e-3L), U(si::Steradian, 1), U(si::Hertz, 1),
      U(si::Newton, 1), U(si::Pascal, 1), U(si::Joule, 1), U(si::Watt, 1),
      U(si::Coulomb, 1), U(si::Volt, 1), U(si::Farad, 1), U(si::Ohm, 1),
      U(si::Siemens, 1), U(si::Weber, 1), U(si::Tesla, 1), U(si::Henry, 1),
      U(si::Lumen, 1), U(si::Katal, 1), U(si::Minute, 60), U(si::Hour, 3600),
      U(si::Day, 86400), U(si::Degree, pi / 180),
      U(si::ArcMinute, pi / (180 * 60)), U(si::ArcSecond, pi / (180 * 3600)),
      U(si::Hectare, 10000), U(si::Litre, 1e-3L), U(si::Tonne, 1000),
      U(si::Yotta(si::Metre), 1e24L), U(si::Zetta(si::Metre), 1e21L),
      U(si::Exa(si::Second), 1e18L), U(si::Peta(si::Watt), 1e15L),
      U(si::Tera(si::Metre), 1e12L), U(si::Giga(si::Metre), 1e9L),
      U(si::Mega(si::Metre), 1e6L), U(si::Kilo(si::Metre), 1e3L),
      U(si::Hecto(si::Metre), 1e2L), U(si::Deca(si::Metre), 1e1L),
      U(si::Deci(si::Metre), 1e-1L), U(si::Centi(si::Metre), 1e-2L),
      U(si::Milli(si::Metre), 1e-3L), U(si::Micro(si::Metre), 1e-6L),
      U(si::Nano(si::Metre), 1e-9L), U(si::Pico(si::Metre), 1e-12L),
      U(si::Femto(si::Metre), 1e-15L), U(si::Atto(si::Metre), 1e-18L),
      U(si::Zepto(si::Metre), 1e-21L), U(si::Yocto(si::Metre), 1e-24L),
      U(qb::Bar, 1e5L), U(qb::MillimetreOfMercury, 133.322L),
      U(qb::Ångström, 1e-10L), U(qb::NauticalMile, 1852),
      U(qb::Knot, 1852.0L / 3600), U(qb::Barn, 1e-28L),
      U(qc::Centimetre, 1e-2L), U(qc::Erg, 1e-7L), U(qc::Dyne, 1e-5L),
      U(qc::Gal, 1e-2L), U(qc::Barye, 1e-1L), U(qc::Poise, 1e-1L),
      U(qc::Stokes, 1e-4L), U(qc::Stilb, 1e4L), U(qc::Phot, 1e4L),
      U(qc::Gauss, 1e-4L), U(qc::Maxwell, 1e-8L), U(qc::Kayser, 100),
      U(qu::Pound, 0.45359237L), U(qu::Ounce, 0.45359237L / 16),
      U(qu::Drachm, 0.45359237L / 256),
      U(qu::Grain, 0.45359237L / 7000), U(qu::Stone, 6.35029318L),
      U(qu::Quarter, 12.70058636L),
      U(qu::Hundredweight, 50.80234544L),
      U(qu::Ton, 1016.0469088L), U(qu::Yard, 0.9144L),
      U(qu::Foot, 0.3048L), U(qu::Inch, 0.0254L),
      U(qu::Thou, 0.0000254L), U(qu::Chain, 20.1168L),
      U(qu::Furlong, 201.168L), U(qu::Mile, 1609.344L),
      U(qu::League, 4828.032L), U(qu::Link, 0.201168L),
      U(qu::Rod, 5.0292L),
      U(qu::admiralty::NauticalMile, 1853.184L),
      U(qu::admiralty::Cable, 185.3184L), U(qu::admiralty::Fathom, 1.853184L),
      U(qu::Perch, 25.29285264L), U(qu::Rood, 1011.7141056L),
      U(qu::Acre, 4046.8564224L),
      U(qu::FluidOunce, 28.4130625e-6L),
      U(qu::Gill, 142.0653125e-6L), U(qu::Pint, 568.26125e-6L),
      U(qu::Quart, 1.1365225e-3L), U(qu::Gallon, 4.54609e-3L),
      U(qu::PoundForce, 4.4482216152605L),
      U(qu::HorsePower, 745.69987158227022L),
      U(qu::PoundPerSquareInch, 4.4482216152605L / (0.0254L * 0.0254L)),
      U(qa::AstronomicalUnit, 149597870700.0L),
      U(qa::Parsec, 648000 / pi * 149597870700.0L),
      U(qa::SolarRadius, 695700000.0L), U(qa::TotalSolarIrradiance, 1361),
      U(qa::SolarLuminosity, 3.828e26L), U(qa::SolarEffectiveTemperature, 5772),
      U(qa::SolarGravitationalParameter, 1.3271244e20L),
      U(qa::TerrestrialEquatorialRadius, 6378100),
      U(qa::TerrestrialPolarRadius, 6356800),
      U(qa::JovianEquatorialRadius, 71492000),
      U(qa::JovianPolarRadius, 66854000),
      U(qa::TerrestrialGravitationalParameter, 3.986004e14L),
      U(qa::JovianGravitationalParameter, 1.2668653e17L),
      U(qa::JulianYear, 31557600), U(qa::LightYear, 9460730472580800.0L),
      U(qk::SpeedOfLight, 299792458), U(qk::PlanckConstant, 6.62607015e-34L),
      U(qk::ElementaryCharge, 1.602176634e-19L),
      U(qk::BoltzmannConstant, 1.380649e-23L),
      U(qk::AvogadroConstant, 6.02214076e23L),
      U(qk::StandardGravity, 9.80665L),
      U(qk::StefanBoltzmannConstant,
        2 * powl(pi, 5) * powl(1.380649e-23L, 4) /
            (15 * powl(6.62607015e-34L, 3) * 299792458.0L * 299792458.0L)),
      U(qk::ElectronVolt, 1.602176634e-19L),
      U(qk::Dalton, 1e-3L / 6.02214076e23L),
      UD(principia::π, pi), UD(principia::e, 2.718281828459045235360287471L),
      UD(principia::φ, 1.618033988749894848204586834366L),
      UD(principia::log_2, 0.693147180559945309417232121458L)};
  return result;
}

void UnitValues(Src& s, Ctx& c) {
  auto const& units = Units();
  auto const& u = units[s.below(units.size())];
  double const multiple = s.slog(1e-5, 1e5);
  c.note() << u.name << " × " << multiple;
  c.nontrivial(true);
  double tolerance = u.tolerance;
  if (std::string(u.name).find("Boltzmann") != std::string::npos) {
    tolerance = 4e-15;
  }
  REQUIRE(std::abs(u.value - u.expected) <= tolerance * std::abs(u.expected),
          u.name << " is " << NumberText(u.value, 16) << ", not "
                 << NumberText(u.expected, 16));
  // Prefixes and products with units.
  Length const l = multiple * si::Metre;
  REQUIRE(si::Kilo(l) == 1e3 * l && si::Mega(l) == 1e6 * l &&
          std::abs(si::Milli(si::Kilo(l)) / l - 1) < 1e-15, "prefixes");
  REQUIRE(std::abs(multiple * si::Degree / si::Radian -
                   static_cast<double>(multiple * pi / 180)) <=
          1e-15 * std::abs(multiple), "degrees");
  // Relations between constants of nature: the error of CODATA's values is
  // larger than that of the arithmetic.
  double const α = qk::FineStructureConstant;
  double const ε0 = qk::VacuumPermittivity /
      SIUnit<std::remove_cvref_t<decltype(qk::VacuumPermittivity)>>();
  double const μ0 = qk::VacuumPermeability /
      SIUnit<std::remove_cvref_t<decltype(qk::VacuumPermeability)>>();
  double const cl = 299792458;
  REQUIRE(std::abs(α - 7.2973525e-3) < 1e-9, "α");
  REQUIRE(std::abs(ε0 / 8.8541878e-12 - 1) < 1e-7, "ε0 " << ε0);
  REQUIRE(std::abs(ε0 * μ0 * cl * cl - 1) < 1e-9, "ε0 μ0 c²");
  REQUIRE(std::abs(qk::GravitationalConstant /
          SIUnit<std::remove_cvref_t<decltype(qk::GravitationalConstant)>>() /
          6.6743e-11 - 1) < 1e-4, "G");
  REQUIRE(std::abs(qk::ElectronMass / si::Kilogram / 9.10938e-31 - 1) < 1e-6);
  REQUIRE(std::abs(qk::ProtonMass / si::Kilogram / 1.67262192e-27 - 1) < 1e-8);
}

// --------------------------------------------------------------- parser.

struct ParsedUnit {
  char const* text;
  double scale;
  Exponents e;
};

std::vector<ParsedUnit> const& ParsedUnits() {
  static auto const& result = *new std::vector<ParsedUnit>{
      {"Å", 1e-10, {1}}, {"μm", 1e-6, {1}}, {"mm", 1e-3, {1}},
      {"cm", 1e-2, {1}}, {"m", 1, {1}}, {"km", 1e3, {1}},
      {"R🜨", 6.3781e6, {1}}, {"R☉", 6.957e8, {1}},
      {"au", 149597870700.0, {1}}, {"kg", 1, {0, 1}},
      {"ms", 1e-3, {0, 0, 1}}, {"s", 1, {0, 0, 1}}, {"min", 60, {0, 0, 1}},
      {"h", 3600, {0, 0, 1}}, {"d", 86400, {0, 0, 1}},
      {"GM🜨", 3.986004e14, {3, 0, -2}}, {"GM☉", 1.3271244e20, {3, 0, -2}},
      {"W", 1, {2, 1, -3}}, {"deg", static_cast<double>(pi / 180),
                             {0, 0, 0, 0, 0, 0, 0, 1}},
      {"°", static_cast<double>(pi / 180), {0, 0, 0, 0, 0, 0, 0, 1}},
      {"rad", 1, {0, 0, 0, 0, 0, 0, 0, 1}},
      {"sr", 1, {0, 0, 0, 0, 0, 0, 0, 2}}};
  return result;
}

struct Rendered {
  std::string text;
  long double scale = 1;
  Exponents e{};
};

std::string Blanks(Src& s, int min) {
  return std::string(min + (s.chance(1, 4) ? s.below(3) : 0), ' ');
}

Rendered Power(Src& s, std::vector<int> const& allowed) {
  auto const& u = ParsedUnits()[allowed[s.below(allowed.size())]];
  Rendered r;
  r.text = u.text;
  int n = 1;
  if (s.chance(2, 5)) {
    n = static_cast<int>(s.range(-4, 4));
    r.text += Blanks(s, 0) + "^" + Blanks(s, 0) +
              (n > 0 && s.chance(1, 5) ? "+" : "") + std::to_string(n);
  }
  r.scale = powl(u.scale, n);
  for (int i = 0; i < 8; ++i) r.e[i] = u.e[i] * n;
  return r;
}

Rendered Combined(Src& s, std::vector<int> const& allowed) {
  // A product, divided by any number of powers.
  Rendered r;
  int const factors = static_cast<int>(s.range(0, 3));
  for (int i = 0; i < factors; ++i) {
    Rendered const f = Power(s, allowed);
    r.text += (i == 0 ? "" : Blanks(s, 1)) + f.text;
    r.scale *= f.scale;
    for (int j = 0; j < 8; ++j) r.e[j] += f.e[j];
  }
  int const divisors = static_cast<int>(s.range(0, 2));
  for (int i = 0; i < divisors; ++i) {
    Rendered const f = Power(s, allowed);
    r.text += Blanks(s, 0) + "/" + Blanks(s, 0) + f.text;
    r.scale /= f.scale;
    for (int j = 0; j < 8; ++j) r.e[j] -= f.e[j];
  }
  return r;
}

template<typename Q>
bool TryParse(std::string const& text, Exponents const& e, Exponents const& q,
              long double const expected) {
  if (e != q) {
    // A case in 8 checks that this is fatal, because that requires forking.
    return false;
  }
  double const actual =
      principia::quantities::_parser::ParseQuantity<Q>(text) / SIUnit<Q>();
  REQUIRE(std::abs(actual - expected) <=
              1e-13L * std::abs(expected),
          "“" << text << "” is " << actual << ", not "
              << static_cast<double>(expected));
  return true;
}

struct Target {
  Exponents e;
  std::vector<int> units;
  void (*parse)(std::string const& text, long double expected);
  bool (*dies)(std::string const& text);
};

template<typename Q>
Target MakeTarget(Exponents const& e) {
  Target t;
  t.e = e;
  t.parse = [](std::string const& text, long double const expected) {
    double const actual =
        principia::quantities::_parser::ParseQuantity<Q>(text) / SIUnit<Q>();
    REQUIRE(std::abs(actual - expected) <= 1e-13L * std::abs(expected),
            "“" << text << "” is " << NumberText(actual, 16) << ", not "
                << NumberText(expected, 16));
  };
  t.dies = [](std::string const& text) {
    return pbt::is_fatal([&] {
      (void)principia::quantities::_parser::ParseQuantity<Q>(text);
    });
  };
  return t;
}

void Parser(Src& s, Ctx& c) {
  static auto const& targets = *new std::vector<Target>{
      MakeTarget<Length>({1}), MakeTarget<Mass>({0, 1}),
      MakeTarget<Time>({0, 0, 1}), MakeTarget<Speed>({1, 0, -1}),
      MakeTarget<Acceleration>({1, 0, -2}), MakeTarget<Area>({2}),
      MakeTarget<Volume>({3}), MakeTarget<Frequency>({0, 0, -1}),
      MakeTarget<GravitationalParameter>({3, 0, -2}),
      MakeTarget<principia::quantities::_named_quantities::Power>({2, 1, -3}), MakeTarget<Energy>({2, 1, -2}),
      MakeTarget<Force>({1, 1, -2}), MakeTarget<principia::quantities::_quantities::Angle>({0, 0, 0, 0, 0, 0, 0, 1}),
      MakeTarget<SolidAngle>({0, 0, 0, 0, 0, 0, 0, 2}),
      MakeTarget<AngularFrequency>({0, 0, -1, 0, 0, 0, 0, 1}),
      MakeTarget<AngularAcceleration>({0, 0, -2, 0, 0, 0, 0, 1}),
      MakeTarget<Inverse<Length>>({-1}), MakeTarget<Density>({-3, 1}),
      MakeTarget<Degree2SphericalHarmonicCoefficient>({5, 0, -2})};
  auto const& target = targets[s.below(targets.size())];
  // Units drawn among all those that have common dimensions with the target;
  // then a correction to get the right dimensions.
  std::vector<int> allowed;
  for (int i = 0; i < ParsedUnits().size(); ++i) {
    bool common = false;
    for (int j = 0; j < 8; ++j) {
      common |= ParsedUnits()[i].e[j] != 0 && target.e[j] != 0;
    }
    if (common || s.chance(1, 6)) allowed.push_back(i);
  }
  Rendered r = Combined(s, allowed);
  bool const compliant = !s.chance(1, 12);
  if (compliant) {
    // Multiply or divide by the base units that are missing.
    static constexpr std::array<char const*, 8> base = {
        "m", "kg", "s", nullptr, nullptr, nullptr, nullptr, "rad"};
    for (int j = 0; j < 8; ++j) {
      std::int64_t const missing = target.e[j] - r.e[j];
      if (missing == 0) continue;
      std::string const n = std::to_string(std::abs(missing));
      r.text += Blanks(s, 0) + "/" + Blanks(s, 0) + base[j];
      // Dividing by the opposite exponent is always associative.
      if (missing != -1 || s.coin()) {
        r.text += "^" + std::to_string(-missing);
      }
    }
    r.e = target.e;
  }
  double const magnitude = s.chance(1, 3)
                               ? static_cast<double>(s.range(-1000, 1000))
                               : s.slog(1e-9, 1e9);
  char number[60];
  std::snprintf(number, sizeof(number), s.coin() ? "%.17g" : "%+.17e",
                magnitude);
  std::string const text = Blanks(s, 0) + number +
                           (r.text.empty() ? "" : Blanks(s, s.coin() ? 0 : 1)) +
                           r.text + Blanks(s, 0);
  c.note() << "“" << text << "”";
  c.nontrivial(r.text.size() > 3);
  // A digit or an e that would extend the number.
  if (!r.text.empty() && r.e == target.e) {
    target.parse(text, magnitude * r.scale);
  } else if (!r.text.empty() && s.chance(1, 4)) {
    c.label("wrong dimensions");
    REQUIRE(target.dies(text), "wrong dimensions accepted: “" << text << "”");
  }
}

void ParserErrors(Src& s, Ctx& c) {
  // Texts that are not quantities.
  static constexpr char const* bad[] = {
      "", "m", "one m", "1 parsec", "1 m/", "1 m^", "1 m^x", "1 m / foo",
      "1 kg m s A", "1 M", "x1 m", "1 mkg", "1 m^2^3x/zz"};
  std::string const text = bad[s.below(std::size(bad))];
  c.note() << "“" << text << "”";
  c.nontrivial(true);
  REQUIRE(pbt::is_fatal([&] {
            (void)principia::quantities::_parser::ParseQuantity<Length>(text);
          }),
          "accepted: “" << text << "”");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"algebra", "48 types with pseudo-random dimensions, any doubles; "
        "non-trivial if finite and not 0", 600000, 3000000, AlgebraProperty},
       {"serialization", "48 types with exponents in [-24, 7]; wrong dimensions",
        3000, 40000, SerializationProperty},
       {"text", "48 types, precisions 0 to 69", 300000, 1000000, TextProperty},
       {"unit_values", "all the units and constants, against their definitions",
        20000, 100000, UnitValues},
       {"parser", "random unit expressions of 19 target types with random "
        "blanks, signs and exponents", 600000, 3000000, Parser},
       {"parser_errors", "texts that are not quantities", 100, 500,
        ParserErrors}});
}
