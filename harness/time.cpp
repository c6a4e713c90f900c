// Calendars, dates, and time scales, against independent implementations.
#include <cmath>
#include <cstdint>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

#include "astronomy/date_time.hpp"
#include "astronomy/epoch.hpp"
#include "astronomy/time_scales.hpp"
#include "fatal.hpp"
#include "geometry/instant.hpp"
#include "pbt.hpp"
#include "quantities/si.hpp"

using namespace principia::astronomy::_date_time;
using namespace principia::astronomy::_epoch;
using namespace principia::astronomy::_time_scales;
using namespace principia::geometry::_instant;
using namespace principia::quantities::_si;
using namespace principia::quantities::_quantities;
using pbt::Ctx;
using pbt::Src;
using Calendar = principia::astronomy::_date_time::Calendar;
namespace scales = principia::astronomy::_time_scales::internal;

namespace {

using Real = long double;
using I = std::int64_t;

I FloorDiv(I const a, I const b) { return a / b - (a % b != 0 && (a < 0) != (b < 0)); }
I FloorMod(I const a, I const b) { return a - b * FloorDiv(a, b); }

bool Leap(bool const julian, I const y) {
  return FloorMod(y, 4) == 0 &&
         (julian || FloorMod(y, 100) != 0 || FloorMod(y, 400) == 0);
}
int MonthLength(bool const julian, I const y, int const m) {
  switch (m) {
    case 2: return Leap(julian, y) ? 29 : 28;
    case 4: case 6: case 9: case 11: return 30;
    default: return 31;
  }
}
// The Julian day number at noon, counting from the leap days.
I DayNumber(bool const julian, I const y, int const m, int const d) {
  I days = 365 * y;
  // The leap years before y, from year 0.
  I const p = y - 1;
  days += FloorDiv(p, 4) + 1;
  if (!julian) days += FloorDiv(p, 400) - FloorDiv(p, 100);
  for (int k = 1; k < m; ++k) days += MonthLength(julian, y, k);
  days += d - 1;
  // 0000-01-01 is JDN 1721058 in the Julian calendar, 1721060 in the Gregorian one.
  return days + (julian ? 1721058 : 1721060);
}
struct Civil {
  I y;
  int m, d;
};
Civil FromDayNumber(bool const julian, I const n) {
  I y = FloorDiv((n - 1721058) * 4, 1461) + 1;
  while (DayNumber(julian, y, 1, 1) > n) --y;
  int m = 12;
  while (DayNumber(julian, y, m, 1) > n) --m;
  return {y, m, static_cast<int>(n - DayNumber(julian, y, m, 1)) + 1};
}
// Monday is 1.
int DayOfWeek(I const n) { return static_cast<int>(FloorMod(n, 7)) + 1; }
struct Iso {
  I y;
  int w, d;
};
// The week is that of its Thursday.
Iso IsoWeek(I const n) {
  int const d = DayOfWeek(n);
  I const thursday = n - d + 4;
  I const y = FromDayNumber(false, thursday).y;
  return {y, static_cast<int>((thursday - DayNumber(false, y, 1, 1)) / 7) + 1, d};
}
I constexpr gregorian_start = 2299161;

std::string Pad(I const x, int const width) {
  std::string s = std::to_string(x);
  return std::string(std::max<int>(0, width - s.size()), '0') + s;
}

// Whether f dies.
template<typename F>
bool Dies(F const& f) {
  try {
    f();
    return false;
  } catch (pbt::FatalError const&) {
    return true;
  }
}

I PickDay(Src& s) {
  switch (s.below(6)) {
    case 0: return s.range(0, 5373484);
    case 1: return gregorian_start + s.range(-500, 500);
    case 2: {
      // Around the ends of years.
      I const y = s.range(-4711, 9998);
      return DayNumber(s.coin() && y < 1582, y, s.coin() ? 1 : 3, 1) + s.range(-8, 8);
    }
    case 3: {
      // Around the ends of centuries.
      I const y = 100 * s.range(-40, 99);
      return DayNumber(s.coin() && y < 1582, y, s.range(1, 3), 1) + s.range(-3, 3);
    }
    default: return 2400000 + s.range(-80000, 120000);
  }
}

std::string Show(Date const& d) {
  std::ostringstream o;
  o << d;
  return o.str();
}

void Dates(Src& s, Ctx& ctx) {
  I const n = PickDay(s);
  if (n < 1 || n > 5373483) throw pbt::Discard{};
  bool const julian = n < gregorian_start;
  Civil const c = FromDayNumber(julian, n);
  ctx.note() << "day " << n << " " << c.y << "-" << c.m << "-" << c.d << " ";
  ctx.label(julian ? "julian" : "gregorian");
  ctx.nontrivial(true);
  auto const date = Date::JD(n - 0.5);
  REQUIRE(date.year() == c.y && date.month() == c.m && date.day() == c.d &&
              (date.calendar() == Calendar::Julian) == julian, "from JD: " << Show(date));
  REQUIRE(date.jd() == n - 0.5 && date.mjd() == n - 2400001, "JD " << date.jd() << " MJD "
          << date.mjd());
  int const ordinal = static_cast<int>(n - DayNumber(julian, c.y, 1, 1)) + 1;
  REQUIRE(date.ordinal() == ordinal, "ordinal " << date.ordinal());
  REQUIRE(date.next_day().jd() == n + 0.5, "next day " << Show(date.next_day()));
  // In both calendars.
  for (auto const calendar : {Calendar::Julian, Calendar::Gregorian}) {
    bool const j = calendar == Calendar::Julian;
    Civil const k = FromDayNumber(j, n);
    if (k.y > 9999) continue;
    auto const other = Date::Calendar(k.y, k.m, k.d, calendar);
    REQUIRE(other.jd() == n - 0.5 && other == date && !(other != date) &&
                !(other < date) && !(date < other) && other >= date,
            "in the " << (j ? "Julian" : "Gregorian") << " calendar " << Show(other)
                      << " has JD " << other.jd() << " instead of " << n - 0.5);
    REQUIRE(other.year() == k.y && other.month() == k.m && other.day() == k.d &&
                other.calendar() == calendar, "components");
    int const o = static_cast<int>(n - DayNumber(j, k.y, 1, 1)) + 1;
    REQUIRE(other.ordinal() == o, "ordinal " << other.ordinal() << " of " << Show(other));
    REQUIRE(Date::Ordinal(k.y, o, calendar) == date, "ordinal date");
    // Strings.
    std::string const prefix = std::string(j ? "J" : "G") + (k.y < 0 ? "-" : s.coin() ? "+" : "");
    std::string const y = Pad(std::abs(k.y), 4);
    for (std::string const& text : {
             prefix + y + "-" + Pad(k.m, 2) + "-" + Pad(k.d, 2),
             prefix + y + Pad(k.m, 2) + Pad(k.d, 2), prefix + y + "-" + Pad(o, 3),
             prefix + y + Pad(o, 3)}) {
      ctx.note() << text << " ";
      REQUIRE(operator""_Date(text.c_str(), text.size()) == date, "parsing " << text);
    }
    std::string const shown = Show(other);
    auto const read = operator""_Date(shown.c_str(), shown.size());
    REQUIRE(read.year() == k.y && read.month() == k.m && read.day() == k.d &&
                read.calendar() == calendar, "reading " << shown);
    I const sign = k.y < 0 ? -1 : 1;
    REQUIRE(Date::YYYYMMDD(sign * (std::abs(k.y) * 10000 + k.m * 100 + k.d), calendar) ==
                date, "YYYYMMDD");
    REQUIRE(Date::YYYYDDD(sign * (std::abs(k.y) * 1000 + o), calendar) == date, "YYYYDDD");
  }
  Civil const g = FromDayNumber(false, n);
  if (g.y >= 1583) {
    // The default calendar, and the weeks.
    REQUIRE(Date::Calendar(g.y, g.m, g.d) == date, "default calendar");
    Iso const w = IsoWeek(n);
    if (w.y >= 1583 && w.y <= 9999) {
      REQUIRE(Date::Week(w.y, w.w, w.d) == date, "week " << w.y << " " << w.w << " " << w.d);
      for (std::string const& text :
           {Pad(w.y, 4) + "-W" + Pad(w.w, 2) + "-" + Pad(w.d, 1),
            Pad(w.y, 4) + "W" + Pad(w.w, 2) + Pad(w.d, 1)}) {
        REQUIRE(operator""_Date(text.c_str(), text.size()) == date, "parsing " << text);
      }
    }
  } else {
    REQUIRE(Dies([&] { Date::Calendar(g.y, g.m, g.d); }), "default calendar before 1583");
  }
  // Order.
  I const m = s.coin() ? n + s.range(-2, 2) : PickDay(s);
  if (m >= 1 && m < 5373483) {
    auto const other = Date::JD(m - 0.5);
    REQUIRE((date < other) == (n < m) && (date <= other) == (n <= m) &&
                (date == other) == (n == m) && (date != other) == (n != m) &&
                (date > other) == (n > m) && (date >= other) == (n >= m), "order");
  }
}

// Reference recognizers.
struct ParsedDate {
  bool julian;
  I n;  // Day number.
  int month_end;  // Whether it is the last day of the month in its calendar.
};
bool Digits(std::string const& s, int const from, int const count, I& value) {
  value = 0;
  if (from + count > static_cast<int>(s.size())) return false;
  for (int i = from; i < from + count; ++i) {
    if (s[i] < '0' || s[i] > '9') return false;
    value = 10 * value + (s[i] - '0');
  }
  return true;
}
// `extended` is set for a date with hyphens.
std::optional<ParsedDate> ReadDate(std::string text, bool& extended) {
  std::optional<bool> julian;
  if (!text.empty() && (text[0] == 'J' || text[0] == 'G')) {
    julian = text[0] == 'J';
    text = text.substr(1);
  }
  bool negative = false;
  if (!text.empty() && (text[0] == '+' || text[0] == '-')) {
    negative = text[0] == '-';
    text = text.substr(1);
  }
  I y, m = 0, d = 0, o = 0, w = 0;
  if (!Digits(text, 0, 4, y)) return std::nullopt;
  if (negative) y = -y;
  std::string const rest = text.substr(4);
  extended = rest.find('-') != std::string::npos;
  int kind;
  if ((rest.size() == 4 && Digits(rest, 0, 2, m) && Digits(rest, 2, 2, d)) ||
      (rest.size() == 6 && rest[0] == '-' && rest[3] == '-' && Digits(rest, 1, 2, m) &&
       Digits(rest, 4, 2, d))) {
    kind = 0;
  } else if ((rest.size() == 3 && Digits(rest, 0, 3, o)) ||
             (rest.size() == 4 && rest[0] == '-' && Digits(rest, 1, 3, o))) {
    kind = 1;
  } else if ((rest.size() == 4 && rest[0] == 'W' && Digits(rest, 1, 2, w) &&
              Digits(rest, 3, 1, d)) ||
             (rest.size() == 6 && rest[0] == '-' && rest[1] == 'W' && rest[4] == '-' &&
              Digits(rest, 2, 2, w) && Digits(rest, 5, 1, d))) {
    kind = 2;
  } else {
    return std::nullopt;
  }
  bool const j = julian.value_or(false);
  if (!julian && y < 1583) return std::nullopt;
  if (kind == 2) {
    if (julian || y < 1583 || w < 1 || d < 1 || d > 7) return std::nullopt;
    // The first week has the 4th of January.
    I const fourth = DayNumber(false, y, 1, 4);
    I const n = fourth - (DayOfWeek(fourth) - 1) + 7 * (w - 1) + (d - 1);
    if (IsoWeek(n).y != y) return std::nullopt;
    Civil const c = FromDayNumber(n < gregorian_start, n);
    return ParsedDate{false, n, c.d == MonthLength(n < gregorian_start, c.y, c.m)};
  }
  if (kind == 1) {
    if (o < 1 || o > (Leap(j, y) ? 366 : 365)) return std::nullopt;
    I const n = DayNumber(j, y, 1, 1) + o - 1;
    // The result may be in another calendar.
    bool const k = n < gregorian_start;
    Civil const c = FromDayNumber(k, n);
    return ParsedDate{k, n, c.d == MonthLength(k, c.y, c.m)};
  }
  if (m < 1 || m > 12 || d < 1 || d > MonthLength(j, y, m)) return std::nullopt;
  return ParsedDate{j, DayNumber(j, y, m, d), d == MonthLength(j, y, m)};
}
struct ParsedTime {
  int h, m, s, ms;
};
std::optional<ParsedTime> ReadTime(std::string const& text, bool& extended) {
  I h, m, s;
  int at;
  if (Digits(text, 0, 6, h)) {
    Digits(text, 0, 2, h);
    Digits(text, 2, 2, m);
    Digits(text, 4, 2, s);
    at = 6;
    extended = false;
  } else if (text.size() >= 8 && text[2] == ':' && text[5] == ':' && Digits(text, 0, 2, h) &&
             Digits(text, 3, 2, m) && Digits(text, 6, 2, s)) {
    at = 8;
    extended = true;
  } else {
    return std::nullopt;
  }
  I ms = 0;
  if (static_cast<int>(text.size()) > at) {
    if (text[at] != '.' && text[at] != ',') return std::nullopt;
    int const digits = text.size() - at - 1;
    if (digits < 1 || digits > 3 || !Digits(text, at + 1, digits, ms)) return std::nullopt;
    for (int k = digits; k < 3; ++k) ms *= 10;
  }
  bool const ok = (h == 24 && m == 0 && s == 0 && ms == 0) ||
                  (h == 23 && m == 59 && s == 60) || (h < 24 && m < 60 && s < 60);
  if (!ok) return std::nullopt;
  return ParsedTime{(int)h, (int)m, (int)s, (int)ms};
}

std::string DateText(Src& s) {
  std::string text;
  I const y = s.chance(1, 3) ? s.range(0, 9999) : s.range(1580, 2400);
  bool const before = y < 1583;
  if (s.chance(before ? 3 : 1, before ? 4 : 6)) text += s.coin() ? "J" : "G";
  if (s.chance(1, 8)) text += s.coin() ? "+" : "-";
  text += Pad(y, 4);
  bool const hyphens = s.coin();
  std::string const h = hyphens ? "-" : "";
  switch (s.below(3)) {
    case 0:
      return text + h + Pad(s.chance(1, 10) ? s.range(0, 99) : s.range(1, 12), 2) + h +
             Pad(s.chance(1, 3) ? s.range(28, 32) : s.range(1, 28), 2);
    case 1:
      return text + h + Pad(s.chance(1, 3) ? s.range(364, 368) : s.range(0, 365), 3);
    default:
      return text + h + "W" + Pad(s.chance(1, 3) ? s.range(51, 54) : s.range(0, 52), 2) + h +
             Pad(s.chance(1, 8) ? s.range(0, 9) : s.range(1, 7), 1);
  }
}
std::string TimeText(Src& s, bool const colons) {
  std::string const c = colons ? ":" : "";
  bool const leap = s.chance(1, 8);
  std::string text;
  if (leap) {
    text = "23" + c + "59" + c + "60";
  } else if (s.chance(1, 10)) {
    text = "24" + c + "00" + c + "00";
  } else {
    text = Pad(s.chance(1, 20) ? s.range(0, 99) : s.range(0, 23), 2) + c +
           Pad(s.chance(1, 20) ? s.range(0, 99) : s.range(0, 59), 2) + c +
           Pad(s.chance(1, 10) ? s.range(58, 62) : s.range(0, 59), 2);
  }
  if (s.coin()) {
    text += s.coin() ? "." : ",";
    int const digits = s.chance(1, 10) ? s.range(0, 6) : s.range(1, 3);
    for (int k = 0; k < digits; ++k) text += static_cast<char>('0' + s.below(10));
  }
  return text;
}
// Sometimes wrong.
std::string Mutate(Src& s, std::string text) {
  int const changes = s.chance(1, 2) ? 0 : s.range(1, 2);
  static std::string const alphabet = "0123456789-:.,WTJGD+Zz /";
  for (int k = 0; k < changes && !text.empty(); ++k) {
    int const i = s.below(text.size());
    char const c = alphabet[s.below(alphabet.size())];
    switch (s.below(4)) {
      case 0: text[i] = c; break;
      case 1: text.insert(i, 1, c); break;
      case 2: text.erase(i, 1); break;
      default: std::swap(text[i], text[s.below(text.size())]);
    }
  }
  return text;
}

void Parsing(Src& s, Ctx& ctx) {
  int const kind = s.below(3);
  if (kind == 0) {
    std::string const text = Mutate(s, DateText(s));
    ctx.note() << "date " << text << " ";
    if (text.empty()) throw pbt::Discard{};
    bool extended;
    auto const expected = ReadDate(text, extended);
    if (expected && expected->n < 1) throw pbt::Discard{};
    ctx.label(expected ? "date" : "not a date");
    ctx.nontrivial(expected.has_value());
    std::optional<Date> actual;
    bool const dies = Dies([&] { actual.emplace(operator""_Date(text.c_str(), text.size())); });
    REQUIRE(dies == !expected.has_value(), (dies ? "rejected" : "accepted"));
    if (expected) {
      REQUIRE(actual->jd() == expected->n - 0.5, "is " << Show(*actual));
    }
  } else if (kind == 1) {
    std::string const text = Mutate(s, TimeText(s, s.coin()));
    ctx.note() << "time " << text << " ";
    if (text.empty()) throw pbt::Discard{};
    bool extended;
    auto const expected = ReadTime(text, extended);
    ctx.label(expected ? "time" : "not a time");
    ctx.nontrivial(expected.has_value());
    std::ostringstream o;
    std::optional<TimeOfDay> actual;
    bool const dies = Dies([&] { actual.emplace(operator""_Time(text.c_str(), text.size())); });
    REQUIRE(dies == !expected.has_value(), (dies ? "rejected" : "accepted"));
    if (expected) {
      REQUIRE(actual->hour() == expected->h && actual->minute() == expected->m &&
                  actual->second() == expected->s && actual->millisecond() == expected->ms,
              "components");
      REQUIRE(actual->is_leap_second() == (expected->s == 60) &&
                  actual->is_end_of_day() == (expected->h == 24), "kind of time");
      o << *actual;
      REQUIRE(operator""_Time(o.str().c_str(), o.str().size()) == *actual, "written as "
              << o.str());
    }
  } else {
    bool const extended = s.coin();
    std::string d = DateText(s);
    std::string const t = TimeText(s, s.chance(7, 8) ? d.find('-', 2) != std::string::npos
                                                     : s.coin());
    if (s.chance(1, 3)) {
      // End of the month.
      I const y = s.range(1583, 2500);
      int const m = s.range(1, 12);
      d = Pad(y, 4) + (extended ? "-" : "") + Pad(m, 2) + (extended ? "-" : "") +
          Pad(MonthLength(false, y, m), 2);
    }
    std::string const text = Mutate(s, d + "T" + t);
    ctx.note() << "date and time " << text << " ";
    if (text.empty()) throw pbt::Discard{};
    std::optional<ParsedDate> date;
    std::optional<ParsedTime> time;
    auto const T = text.find('T');
    if (T != std::string::npos && T > 0) {
      bool e1 = false, e2 = false;
      date = ReadDate(text.substr(0, T), e1);
      time = ReadTime(text.substr(T + 1), e2);
      if (date && date->n < 1) throw pbt::Discard{};
      // Both basic, or both extended, and the leap seconds at the end of the month.
      if (!date || !time || e1 != e2 || (time->s == 60 && !date->month_end)) {
        date.reset();
      }
    }
    ctx.label(date ? "date and time" : "not a date and time");
    ctx.nontrivial(date.has_value());
    std::optional<DateTime> actual;
    bool const dies =
        Dies([&] { actual.emplace(operator""_DateTime(text.c_str(), text.size())); });
    REQUIRE(dies == !date.has_value(), (dies ? "rejected" : "accepted"));
    if (date) {
      REQUIRE(actual->date().jd() == date->n - 0.5 && actual->time().hour() == time->h &&
                  actual->time().millisecond() == time->ms, "components");
      auto const normal = actual->normalized_end_of_day();
      REQUIRE(normal == *actual && !normal.time().is_end_of_day() &&
                  normal.date().jd() == date->n - 0.5 + (time->h == 24), "normalized");
      // Years after 9999 have no textual form.
      if (FromDayNumber(false, date->n + 1).y > 9999) return;
      std::ostringstream o;
      o << *actual;
      REQUIRE(operator""_DateTime(o.str().c_str(), o.str().size()) == *actual,
              "written as " << o.str());
    }
  }
}

// Steps and rates of UTC before 1972, as published: day number, offset, MJD, rate.
struct Stretch {
  int y, m, d;
  Real offset, mjd, rate;
};
Stretch const stretches[] = {
    {1961, 1, 1, 1.4228180L, 37300, 0.001296L}, {1961, 8, 1, 1.3728180L, 37300, 0.001296L},
    {1962, 1, 1, 1.8458580L, 37665, 0.0011232L}, {1963, 11, 1, 1.9458580L, 37665, 0.0011232L},
    {1964, 1, 1, 3.2401300L, 38761, 0.001296L}, {1964, 4, 1, 3.3401300L, 38761, 0.001296L},
    {1964, 9, 1, 3.4401300L, 38761, 0.001296L}, {1965, 1, 1, 3.5401300L, 38761, 0.001296L},
    {1965, 3, 1, 3.6401300L, 38761, 0.001296L}, {1965, 7, 1, 3.7401300L, 38761, 0.001296L},
    {1965, 9, 1, 3.8401300L, 38761, 0.001296L}, {1966, 1, 1, 4.3131700L, 39126, 0.002592L},
    {1968, 2, 1, 4.2131700L, 39126, 0.002592L}};
// The days at the end of which there is a leap second.
std::vector<std::pair<int, int>> const leaps = {
    {1972, 6}, {1972, 12}, {1973, 12}, {1974, 12}, {1975, 12}, {1976, 12}, {1977, 12},
    {1978, 12}, {1979, 12}, {1981, 6}, {1982, 6}, {1983, 6}, {1985, 6}, {1987, 12},
    {1989, 12}, {1990, 12}, {1992, 6}, {1993, 6}, {1994, 6}, {1995, 12}, {1997, 6},
    {1998, 12}, {2005, 12}, {2008, 12}, {2012, 6}, {2015, 6}, {2016, 12}};

// TAI - UTC, and whether this is a valid UTC time.
bool TAIMinusUTC(I const n, ParsedTime const& t, Real& difference) {
  Civil const c = FromDayNumber(false, n);
  bool const leap = t.s == 60;
  if (c.y >= 1972) {
    if (n > DayNumber(false, 2023, 6, 30)) return false;
    difference = 10;
    bool valid = !leap;
    for (auto const& [y, m] : leaps) {
      I const day = DayNumber(false, y, m, m == 6 ? 30 : 31);
      if (n > day) ++difference;
      if (n == day) valid = true;
    }
    return valid;
  }
  if (c.y < 1961) return false;
  Real const mjd = (n - 2400001) + (t.h * 3600 + t.m * 60 + t.s + t.ms / 1000.0L) / 86400;
  auto const at = [&](Stretch const& s) { return s.offset + (mjd - s.mjd) * s.rate; };
  int k = 0;
  while (k + 1 < 13 && n >= DayNumber(false, stretches[k + 1].y, stretches[k + 1].m,
                                      stretches[k + 1].d)) {
    ++k;
  }
  difference = at(stretches[k]);
  // The step at the end of this day, if any.
  Real step = 0;
  if (n == DayNumber(false, 1971, 12, 31)) {
    step = 0.107758L;
  } else if (k + 1 < 13 && n + 1 == DayNumber(false, stretches[k + 1].y, stretches[k + 1].m,
                                              stretches[k + 1].d)) {
    Real const end = (n + 1 - 2400001);
    step = stretches[k + 1].offset + (end - stretches[k + 1].mjd) * stretches[k + 1].rate -
           (stretches[k].offset + (end - stretches[k].mjd) * stretches[k].rate);
  }
  if (leap) return step > 1e-6L && t.ms / 1000.0L < step - 1e-6L;
  if (step < -1e-6L && t.h == 23 && t.m == 59 && t.s == 59) {
    return t.ms / 1000.0L < 1 + step - 1e-6L;
  }
  return true;
}

Real At(Instant const& t) { return (t - J2000) / Second; }

void Scales(Src& s, Ctx& ctx) {
  // A date and time.
  I n;
  ParsedTime t{};
  t.h = s.range(0, 23);
  t.m = s.range(0, 59);
  t.s = s.range(0, 59);
  t.ms = s.coin() ? 0 : s.range(0, 999);
  bool const step = s.coin();
  if (step) {
    if (s.coin()) {
      auto const& l = leaps[s.below(leaps.size())];
      n = DayNumber(false, l.first, l.second, l.second == 6 ? 30 : 31);
    } else {
      int const k = s.range(1, 13);
      n = k == 13 ? DayNumber(false, 1971, 12, 31)
                  : DayNumber(false, stretches[k].y, stretches[k].m, stretches[k].d) - 1;
    }
    if (s.chance(1, 4)) n += s.range(-1, 1);
    if (s.chance(3, 4)) {
      t.h = 23;
      t.m = 59;
      if (s.chance(3, 4)) t.s = s.range(58, 60);
    }
    if (s.chance(1, 8)) t = {24, 0, 0, 0};
  } else if (s.chance(1, 3)) {
    n = DayNumber(false, 1961, 1, 1) + s.range(-30, 4020);
  } else {
    n = DayNumber(false, 1972, 1, 1) + s.range(0, 18790);
  }
  if (t.s == 60) {
    Civil const c = FromDayNumber(false, n);
    if (c.d != MonthLength(false, c.y, c.m)) t.s = 59;
  }
  bool const julian_date = t.s != 60 && s.chance(1, 4);
  Civil const c = FromDayNumber(false, n);
  std::string text;
  Real utc;  // Seconds since 2000-01-01T12:00:00, not counting the leap seconds.
  if (julian_date) {
    bool const mjd = s.coin();
    int const digits = s.range(0, 9);
    I fraction = 0;
    for (int k = 0; k < digits; ++k) fraction = fraction * 10 + s.below(10);
    I const day = mjd ? n - 2400001 : n;
    text = (mjd ? "MJD" : "JD") + std::to_string(day) +
           (digits > 0 ? "." + Pad(fraction, digits) : "");
    utc = ((mjd ? day - 51544.5L : day - 2451545) + fraction / std::pow(10.0L, digits)) * 86400;
  } else {
    text = Pad(c.y, 4) + "-" + Pad(c.m, 2) + "-" + Pad(c.d, 2) + "T" + Pad(t.h, 2) + ":" +
           Pad(t.m, 2) + ":" + Pad(t.s, 2) +
           (t.ms > 0 ? (s.coin() ? "," : ".") + Pad(t.ms, 3) : "");
    utc = (n - 2451545) * 86400.0L - 43200 + t.h * 3600 + t.m * 60 + t.s + t.ms / 1000.0L;
  }
  ctx.note() << text << " ";
  // The code computes the fraction of a Julian day in double precision.
  Real const ulp = std::abs(utc) * 3e-16L + (julian_date ? 4e-11L : 1e-14L);
  auto const check = [&](std::string const& what, Real const expected, auto const& parse,
                         bool const valid) {
    std::optional<Instant> actual;
    bool const dies = Dies([&] { actual = parse(text); });
    REQUIRE(dies == !valid, what << (dies ? " is rejected" : " is accepted"));
    if (valid) {
      REQUIRE(std::abs(At(*actual) - expected) <= ulp,
              what << " is " << At(*actual) << " not " << expected);
    }
  };
  // The uniform scales have no leap seconds.
  bool const uniform = t.s != 60;
  check("TT", utc, [](auto const& x) { return ParseTT(x); }, uniform);
  check("TAI", utc + 32.184L, [](auto const& x) { return ParseTAI(x); }, uniform);
  if (!julian_date) {
    check("GPS", utc + 51.184L, [](auto const& x) { return ParseGPSTime(x); }, uniform);
    check("BDT", utc + 65.184L, [](auto const& x) { return Parse北斗Time(x); }, uniform);
    Real difference = 0;
    ParsedTime normal = t;
    I day = n;
    if (t.h == 24) {
      normal.h = 0;
      day = n + 1;
    }
    bool const valid = TAIMinusUTC(day, normal, difference);
    ctx.label(!valid ? "invalid UTC" : t.s == 60 ? "leap second" : c.y < 1972 ? "stretchy"
                                                                             : "modern");
    check("UTC", utc + difference + 32.184L, [](auto const& x) { return ParseUTC(x); }, valid);
  }
  // The day and the second of an instant.
  double const instant = static_cast<double>(
      s.coin() ? utc : s.coin() ? (n - 2451545) * 86400.0L - 43200
                                : utc + s.sym(1) * std::pow(10.0L, -s.range(0, 12)));
  double const near = s.chance(1, 3)
                          ? std::nextafter(instant, s.coin() ? 1e20 : -1e20) : instant;
  Instant const tt = J2000 + near * Second;
  I const second = static_cast<I>(std::floor((Real)near)) + 43200;
  I const tt_day = FloorDiv(second, 86400);
  I const second_of_day = FloorMod(second, 86400);
  ctx.note() << "tt " << near << " ";
  REQUIRE(TTDay(tt).jd() == tt_day + 2451544.5, "TT day " << Show(TTDay(tt)));
  auto const tt_second = TTSecond(tt);
  REQUIRE(tt_second.date().jd() == tt_day + 2451544.5 &&
              tt_second.time().hour() == second_of_day / 3600 &&
              tt_second.time().minute() == second_of_day / 60 % 60 &&
              tt_second.time().second() == second_of_day % 60 &&
              tt_second.time().millisecond() == 0, "TT second " << tt_second);
  REQUIRE(At(DateTimeAsTT(tt_second)) == second - 43200, "as TT");
  ctx.nontrivial(step || c.y < 1972);
}

// UT1, from the tables.
void Rotation(Src& s, Ctx& ctx) {
  auto const& c04 = scales::eop_c04;
  auto const& c02 = scales::experimental_eop_c02;
  int const size = c04.size();
  auto const day_of = [](scales::EOPC04Entry const& e) {
    int const d = e.utc_date;
    return DayNumber(false, d / 10000, d / 100 % 100, d % 100);
  };
  auto const minus_tai = [&](int const k) {
    Real difference = 0;
    TAIMinusUTC(day_of(c04[k]), {0, 0, 0, 0}, difference);
    return c04[k].ut1_minus_utc / Second - difference;
  };
  auto const ut1_of = [&](int const k) -> Real {
    return (day_of(c04[k]) - 2451545) * 86400.0L - 43200 + c04[k].ut1_minus_utc / Second;
  };
  int const kind = s.below(4);
  if (kind == 0) {
    // The tables are consecutive and smooth.
    int const k = s.range(2, size - 3);
    ctx.note() << "entry " << c04[k].utc_date << " ";
    REQUIRE(day_of(c04[k + 1]) == day_of(c04[k]) + 1 && day_of(c04[k]) == day_of(c04[k - 1]) + 1,
            "dates");
    Real const rate = minus_tai(k + 1) - minus_tai(k);
    REQUIRE(rate > -0.006L && rate < 0.003L, "length of the day " << rate);
    Real const curvature = minus_tai(k + 1) - 2 * minus_tai(k) + minus_tai(k - 1);
    REQUIRE(std::abs(curvature) < 0.002L, "jump " << curvature);
    int const j = s.range(1, (int)c02.size() - 2);
    REQUIRE(c02[j + 1].ut1_mjd - c02[j].ut1_mjd > 10 &&
                c02[j + 1].ut1_mjd - c02[j].ut1_mjd < 101, "dates of C02 at " << j);
    Real const slope = (c02[j + 1].ut1_minus_tai - c02[j].ut1_minus_tai) / Second /
                       (c02[j + 1].ut1_mjd - c02[j].ut1_mjd);
    REQUIRE(std::abs(slope) < 0.006L, "length of the day " << slope << " of C02 at " << j);
    ctx.label("tables");
    return;
  }
  ctx.nontrivial(true);
  Real const first = ut1_of(0), last = ut1_of(size - 1);
  auto const c02_ut1 = [&](int const j) { return (c02[j].ut1_mjd - 51544.5L) * 86400; };
  // A UT1 time, as a Julian date or as a date.
  Real ut1;
  bool const modern = kind >= 2;
  if (modern) {
    int const k = s.below(size - 1);
    ut1 = s.chance(1, 4) ? ut1_of(k) + s.sym(1e-3)
                         : ut1_of(k) + s.real(0, 1) * (ut1_of(k + 1) - ut1_of(k));
  } else {
    ut1 = s.chance(1, 4) ? first + s.sym(200 * 86400)
                         : c02_ut1(0) + s.real(0, 1) * (last - c02_ut1(0));
    if (s.chance(1, 6)) {
      ut1 = (s.coin() ? last : c02_ut1(0)) + s.sym(1000 * 86400);
    }
  }
  std::string text;
  bool const julian = s.coin();
  if (julian) {
    Real const jd = ut1 / 86400 + 2451545;
    I const day = static_cast<I>(std::floor(jd));
    I const fraction = static_cast<I>((jd - day) * 1e9L);
    text = "JD" + std::to_string(day) + "." + Pad(fraction, 9);
    ut1 = (day - 2451545 + fraction * 1e-9L) * 86400;
  } else {
    I const ms = static_cast<I>(std::floor((ut1 + 43200) * 1000));
    I const n = FloorDiv(ms, 86400000) + 2451545;
    I const m = FloorMod(ms, 86400000);
    Civil const c = FromDayNumber(false, n);
    text = Pad(c.y, 4) + "-" + Pad(c.m, 2) + "-" + Pad(c.d, 2) + "T" + Pad(m / 3600000, 2) +
           ":" + Pad(m / 60000 % 60, 2) + ":" + Pad(m / 1000 % 60, 2) + "." + Pad(m % 1000, 3);
    ut1 = ms / 1000.0L - 43200;
  }
  ctx.note() << text << " UT1 ";
  // The bounds are as good as the table.
  if (std::abs(ut1 - last) < 1e-6L || std::abs(ut1 - c02_ut1(0)) < 1e-6L) throw pbt::Discard{};
  bool const valid = ut1 >= c02_ut1(0) && ut1 < last;
  std::optional<Instant> tt;
  bool const dies = Dies([&] { tt = ParseUT1(text); });
  ctx.label(!valid ? "outside" : ut1 >= first ? "C04" : "C02");
  REQUIRE(dies == !valid, (dies ? "rejected" : "accepted"));
  if (!valid) return;
  // The interpolation.
  Real low, high, low_value, high_value;
  if (ut1 >= first) {
    int k = std::clamp<int>(static_cast<int>((ut1 - first) / 86400.0L), 0, size - 2);
    while (k > 0 && ut1_of(k) > ut1) --k;
    while (k < size - 2 && ut1_of(k + 1) <= ut1) ++k;
    low = ut1_of(k);
    high = ut1_of(k + 1);
    low_value = minus_tai(k);
    high_value = minus_tai(k + 1);
  } else {
    int j = 0;
    while (j + 1 < (int)c02.size() && c02_ut1(j + 1) <= ut1) ++j;
    low = c02_ut1(j);
    low_value = c02[j].ut1_minus_tai / Second;
    if (c02_ut1(j + 1) > first) {
      high = first;
      high_value = minus_tai(0);
    } else {
      high = c02_ut1(j + 1);
      high_value = c02[j + 1].ut1_minus_tai / Second;
    }
  }
  Real const λ = (ut1 - low) / (high - low);
  Real const expected = ut1 - (low_value + λ * (high_value - low_value)) + 32.184L;
  REQUIRE(std::abs(At(*tt) - expected) <= 1e-6L + std::abs(expected) * 5e-16L, "is " << At(*tt) << " not " << expected);
  // The Earth rotation angle.
  Real const start = (day_of(c04[0]) - 2451545) * 86400.0L - 43200;
  Real difference = 0;
  TAIMinusUTC(day_of(c04[0]), {0, 0, 0, 0}, difference);
  if (At(*tt) >= start + difference + 32.184L + 1e-3L) {
    Real const Tu = ut1 / 86400;
    Real const turns = 0.7790572732640L + 1.00273781191135448L * Tu;
    Real const angle = EarthRotationAngle(*tt) / Radian;
    Real const π = std::acos(-1.0L);
    Real const error = std::remainder(angle - 2 * π * turns, 2 * π);
    // The interpolation is linear in TT on one side, in UT1 on the other.
    REQUIRE(std::abs(error) <= 1e-9L, "Earth rotation angle " << angle << " error " << error);
    ctx.label("rotation angle");
  }
  Real end_difference = 0;
  TAIMinusUTC(day_of(c04[size - 1]), {0, 0, 0, 0}, end_difference);
  double const end = static_cast<double>((day_of(c04[size - 1]) - 2451545) * 86400.0L -
                                         43200 + end_difference + 32.184L);
  Instant const outside =
      J2000 + (s.coin() ? end + s.real(1e-3, 1e9)
                        : static_cast<double>(start + difference + 32.184L) -
                              s.real(1e-3, 1e9)) * Second;
  REQUIRE(Dies([&] { EarthRotationAngle(outside); }),
          "the Earth rotation angle is defined at " << At(outside));
}

}  // namespace

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"dates", "dates in all calendars and forms", 300'000, 30'000'000, Dates},
       {"parsing", "acceptance of strings", 600'000, 60'000'000, Parsing},
       {"scales", "time scales and leap seconds", 400'000, 40'000'000, Scales},
       {"rotation", "UT1 and the rotation of the Earth", 80'000, 8'000'000, Rotation}});
}
