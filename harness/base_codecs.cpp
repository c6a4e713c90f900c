// P01: text codecs.
#include <array>
#include <memory>
#include <string>
#include <vector>

#include "base/array.hpp"
#include "base/base32768.hpp"
#include "base/base64.hpp"
#include "base/fingerprint2011.hpp"
#include "base/hexadecimal.hpp"
#include "fatal.hpp"
#include "pbt.hpp"

using namespace principia::base::_array;
using namespace principia::base::_base32768;
using namespace principia::base::_base64;
using namespace principia::base::_encoder;
using namespace principia::base::_fingerprint2011;
using namespace principia::base::_hexadecimal;
using pbt::Ctx;
using pbt::Src;

namespace {

std::string Hex(std::vector<std::uint8_t> const& v) {
  std::string r;
  for (auto const b : v) {
    r += "0123456789ABCDEF"[b >> 4];
    r += "0123456789ABCDEF"[b & 15];
  }
  return r;
}

// Payload lengths around all the boundaries that matter.
std::vector<std::uint8_t> Payload(Src& s) {
  std::size_t const n = s.chance(1, 10) ? s.below(3000) : s.below(80);
  std::vector<std::uint8_t> v;
  switch (s.below(5)) {
    case 0:
      v.assign(n, 0);
      break;
    case 1:
      v.assign(n, 0xff);
      break;
    default:
      v = s.bytes(n);
  }
  return v;
}

// An exactly-sized heap copy, so that the address sanitizer sees any overrun.
template<typename T>
std::unique_ptr<T[]> Exact(T const* p, std::size_t n) {
  std::unique_ptr<T[]> r(new T[n]);
  std::copy(p, p + n, r.get());
  return r;
}

template<typename T>
std::vector<T> ToVector(UniqueArray<T> const& a) {
  return std::vector<T>(a.data.get(), a.data.get() + a.size);
}

// Reference: a bit string cut in groups of `width`, the last one padded with
// `pad`.
std::vector<std::uint32_t> Groups(std::vector<std::uint8_t> const& v, int width,
                                  int pad) {
  std::vector<std::uint32_t> g;
  std::size_t const bits = v.size() * 8;
  for (std::size_t i = 0; i < bits; i += width) {
    std::uint32_t x = 0;
    for (std::size_t j = i; j < i + width; ++j) {
      int const bit = j < bits ? (v[j / 8] >> (7 - j % 8)) & 1 : pad;
      x = 2 * x + bit;
    }
    g.push_back(x);
  }
  return g;
}

std::vector<char> ReferenceBase64(std::vector<std::uint8_t> const& v) {
  std::vector<char> r;
  for (auto const g : Groups(v, 6, 0)) {
    r.push_back("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
                "-_"[g]);
  }
  return r;
}

std::vector<char> ReferenceHexadecimal(std::vector<std::uint8_t> const& v) {
  auto const h = Hex(v);
  return {h.begin(), h.end()};
}

// The code points for the groups, obtained from 2-byte payloads (15 bits and a
// spurious one, which goes in its own code point).
char16_t Fifteen(std::uint32_t const g) {
  std::uint8_t const in[2] = {static_cast<std::uint8_t>(g >> 7),
                              static_cast<std::uint8_t>(g << 1)};
  char16_t out[2] = {};
  Base32768Encoder<false> e;
  e.Encode(Array<std::uint8_t const>(in, 2), Array<char16_t>(out, 2));
  return out[0];
}
char16_t Seven(std::uint32_t const g) {
  // 15 bytes = 120 bits = 8 groups; 14 bytes = 7 groups and 7 bits.
  std::uint8_t in[14] = {};
  in[13] = static_cast<std::uint8_t>(g);
  // Bits 105 .. 111 are the last 7 bits of byte 13.
  char16_t out[8] = {};
  Base32768Encoder<false> e;
  e.Encode(Array<std::uint8_t const>(in, 14), Array<char16_t>(out, 8));
  return out[7];
}

std::vector<char16_t> ReferenceBase32768(std::vector<std::uint8_t> const& v) {
  auto const groups = Groups(v, 15, 1);
  std::size_t const last_bits = v.size() * 8 % 15;
  std::vector<char16_t> r;
  for (std::size_t i = 0; i < groups.size(); ++i) {
    if (i + 1 == groups.size() && last_bits != 0 && last_bits <= 7) {
      r.push_back(Seven(groups[i] >> 8));
    } else {
      r.push_back(Fifteen(groups[i]));
    }
  }
  return r;
}

template<typename E, typename Char, bool null_terminated>
void RoundTrip(Src& s, Ctx& c, E& encoder,
               std::vector<Char> (*reference)(
                   std::vector<std::uint8_t> const&)) {
  auto const v = Payload(s);
  int const nul = null_terminated ? 1 : 0;
  c.note() << v.size() << " bytes " << Hex(v).substr(0, 160)
           << (null_terminated ? " null-terminated" : "");
  c.nontrivial(!v.empty());
  c.label("mod15=" + std::to_string(v.size() % 15));
  auto const in = Exact(v.data(), v.size());
  Array<std::uint8_t const> const input(in.get(), v.size());
  auto const expected = reference(v);

  REQUIRE(encoder.EncodedLength(input) ==
              static_cast<std::int64_t>(expected.size()) + nul,
          encoder.EncodedLength(input));
  auto encoded = encoder.Encode(input);
  REQUIRE(encoded.size == static_cast<std::int64_t>(expected.size()) + nul);
  for (std::size_t i = 0; i < expected.size(); ++i) {
    REQUIRE(encoded.data[i] == expected[i],
            "code unit " << i << " is " << static_cast<int>(encoded.data[i])
                         << ", should be " << static_cast<int>(expected[i]));
  }
  if (null_terminated) {
    REQUIRE(encoded.data[expected.size()] == 0);
  }
  // Encoding into a larger caller-supplied buffer leaves the rest alone.
  {
    std::size_t const slack = s.below(5);
    std::unique_ptr<Char[]> out(new Char[expected.size() + nul + slack]);
    Char const canary = 0x55;
    for (std::size_t i = 0; i < expected.size() + nul + slack; ++i) {
      out[i] = canary;
    }
    if (expected.size() + nul > 0) {
      encoder.Encode(
          input, Array<Char>(out.get(), expected.size() + nul + slack));
      for (std::size_t i = 0; i < expected.size(); ++i) {
        REQUIRE(out[i] == expected[i]);
      }
      if (null_terminated) {
        REQUIRE(out[expected.size()] == 0);
      }
      for (std::size_t i = 0; i < slack; ++i) {
        REQUIRE(out[expected.size() + nul + i] == canary,
                "overwritten past the end of the encoding");
      }
    }
  }
  // Decoding.
  {
    auto const text = Exact(encoded.data.get(), expected.size());
    Array<Char const> const a(text.get(), expected.size());
    REQUIRE(encoder.DecodedLength(a) == static_cast<std::int64_t>(v.size()),
            encoder.DecodedLength(a));
    auto const decoded = ToVector(encoder.Decode(a));
    REQUIRE(decoded == v, "decoded to " << Hex(decoded).substr(0, 200));
    if (!v.empty()) {
      std::size_t const slack = s.below(4);
      std::unique_ptr<std::uint8_t[]> out(new std::uint8_t[v.size() + slack]);
      std::fill_n(out.get(), v.size() + slack, 0xA5);
      // The decoder may use the size of the output to know where to stop.
      encoder.Decode(a, Array<std::uint8_t>(out.get(), v.size()));
      REQUIRE(std::equal(v.begin(), v.end(), out.get()));
      for (std::size_t i = 0; i < slack; ++i) {
        REQUIRE(out[v.size() + i] == 0xA5);
      }
    }
  }
}

void HexadecimalRoundTrip(Src& s, Ctx& c) {
  if (s.coin()) {
    HexadecimalEncoder<true> e;
    RoundTrip<decltype(e), char, true>(s, c, e, &ReferenceHexadecimal);
  } else {
    HexadecimalEncoder<false> e;
    RoundTrip<decltype(e), char, false>(s, c, e, &ReferenceHexadecimal);
  }
}
void Base64RoundTrip(Src& s, Ctx& c) {
  if (s.coin()) {
    Base64Encoder<true> e;
    RoundTrip<decltype(e), char, true>(s, c, e, &ReferenceBase64);
  } else {
    Base64Encoder<false> e;
    RoundTrip<decltype(e), char, false>(s, c, e, &ReferenceBase64);
  }
}
void Base32768RoundTrip(Src& s, Ctx& c) {
  if (s.coin()) {
    Base32768Encoder<true> e;
    RoundTrip<decltype(e), char16_t, true>(s, c, e, &ReferenceBase32768);
  } else {
    Base32768Encoder<false> e;
    RoundTrip<decltype(e), char16_t, false>(s, c, e, &ReferenceBase32768);
  }
}

// Hexadecimal decoding of arbitrary text: invalid digits are read as 0, case is
// ignored, an odd last character is ignored.
void HexadecimalDecodeArbitrary(Src& s, Ctx& c) {
  std::size_t const n = s.below(60);
  std::string text;
  for (std::size_t i = 0; i < n; ++i) {
    switch (s.below(4)) {
      case 0:
        text += "0123456789abcdefABCDEF"[s.below(22)];
        break;
      case 1:
        // Near misses.
        text += "/:@G`g \0-xX\x7f"[s.below(12)];
        break;
      case 2:
        text += static_cast<char>(s.below(128));
        break;
      default:
        text += static_cast<char>(s.below(256));
    }
  }
  bool ascii = true;
  for (unsigned char const ch : text) ascii = ascii && ch < 128;
  c.label(ascii ? "ascii" : "non-ascii");
  c.label(n % 2 == 0 ? "even" : "odd");
  c.nontrivial(n >= 2);
  c.note() << "text (in hexadecimal) "
           << Hex(std::vector<std::uint8_t>(text.begin(), text.end()));
  auto const nibble = [](char const ch) -> int {
    if (ch >= '0' && ch <= '9') return ch - '0';
    if (ch >= 'a' && ch <= 'f') return ch - 'a' + 10;
    if (ch >= 'A' && ch <= 'F') return ch - 'A' + 10;
    return 0;
  };
  std::vector<std::uint8_t> expected;
  for (std::size_t i = 0; i + 1 < n; i += 2) {
    expected.push_back(nibble(text[i]) * 16 + nibble(text[i + 1]));
  }
  HexadecimalEncoder<false> e;
  auto const exact = Exact(text.data(), n);
  auto const decoded = ToVector(e.Decode(Array<char const>(exact.get(), n)));
  REQUIRE(decoded == expected, Hex(decoded) << " vs. " << Hex(expected));
}

// In-place and overlapping encoding and decoding, as allowed by the contract.
void HexadecimalOverlap(Src& s, Ctx& c) {
  auto v = Payload(s);
  if (v.empty()) v.push_back(7);
  std::size_t const n = v.size();
  c.nontrivial();
  c.note() << Hex(v).substr(0, 160);
  HexadecimalEncoder<false> e;
  auto const expected = ReferenceHexadecimal(v);
  {
    // Encoding with input.data in ]-∞, output + 1].
    std::size_t const gap = s.below(3);
    std::vector<std::uint8_t> buffer(3 * n + 8, 0xAA);
    std::size_t const out = 1 + s.below(2);
    std::size_t const in = out + 1 - std::min<std::size_t>(gap, out + 1);
    std::copy(v.begin(), v.end(), buffer.begin() + in);
    e.Encode(Array<std::uint8_t const>(buffer.data() + in, n),
             Array<char>(reinterpret_cast<char*>(buffer.data()) + out, 2 * n));
    REQUIRE(std::equal(expected.begin(), expected.end(),
                       reinterpret_cast<char*>(buffer.data()) + out),
            "in at " << in << " out at " << out);
    REQUIRE(buffer[out + 2 * n] == 0xAA || in + n > out + 2 * n);
  }
  {
    // Decoding with output in ]-∞, input + 1].
    std::vector<std::uint8_t> buffer(3 * n + 8, 0xAA);
    std::size_t const in = 1 + s.below(2);
    std::size_t const out = in + 1 - std::min<std::size_t>(s.below(3), in + 1);
    std::copy(expected.begin(), expected.end(), buffer.begin() + in);
    e.Decode(Array<char const>(
                 reinterpret_cast<char*>(buffer.data()) + in, 2 * n),
             Array<std::uint8_t>(buffer.data() + out, n));
    REQUIRE(std::equal(v.begin(), v.end(), buffer.begin() + out),
            "in at " << in << " out at " << out);
  }
}

// The repertoires are injective, made of code points that survive in text, and
// are those of the published format (so that files can be exchanged between
// versions).
void Base32768Repertoire(Src& s, Ctx& c) {
  std::uint32_t const g = s.below(1 << 15);
  c.nontrivial();
  c.note() << "group " << g;
  char16_t const x = Fifteen(g);
  REQUIRE(x >= 0x00A0 && (x < 0xD800 || x > 0xDFFF) && x < 0xFDD0,
          static_cast<int>(x));
  // Blocks of 32 are contiguous.
  REQUIRE(x % 32 == static_cast<char16_t>(g % 32));
  REQUIRE(Fifteen(g & ~31u) + (g & 31u) == x);
  // Strictly increasing.
  if (g > 0) {
    REQUIRE(Fifteen(g - 1) < x);
  }
  std::uint32_t const h = g % 128;
  char16_t const y = Seven(h);
  constexpr char16_t blocks[] = {0x0180, 0x0240, 0x0260, 0x0280};
  REQUIRE(y == blocks[h / 32] + h % 32, static_cast<int>(y));
  if (s.below(64) == 0) {
    std::string all;
    for (int i = 0; i < 1 << 15; ++i) {
      char16_t const z = Fifteen(i);
      all += static_cast<char>(z & 0xff);
      all += static_cast<char>(z >> 8);
    }
    std::uint64_t h = 0xcbf29ce484222325;
    for (unsigned char const ch : all) {
      h = (h ^ ch) * 0x100000001b3;
    }
    REQUIRE(h == 14503205233740154437ull, h);
  }
}

// The fingerprint is a pure function of the bytes, is never 0 or 1, and follows
// its published definition.
void Fingerprint(Src& s, Ctx& c) {
  auto v = Payload(s);
  c.nontrivial(v.size() > 1);
  c.note() << Hex(v).substr(0, 160);
  auto const cat = [](std::uint64_t a, std::uint64_t b) {
    std::uint64_t const x = a * 0xC6A4A7935BD1E995 + b * 0x228876A7198B743;
    return x + (~x >> 47);
  };
  std::uint64_t expected = 0xA5B85C5E198ED849;
  std::size_t i = 0;
  for (; i + 8 <= v.size(); i += 8) {
    std::uint64_t w = 0;
    for (int k = 7; k >= 0; --k) w = w << 8 | v[i + k];
    expected = cat(expected, w);
  }
  std::uint64_t last = 0;
  for (; i < v.size(); ++i) {
    last += static_cast<std::int64_t>(static_cast<signed char>(v[i]));
    last <<= 8;
  }
  expected = cat(expected, last);
  std::size_t const shift = s.below(8);
  std::unique_ptr<std::uint8_t[]> p(new std::uint8_t[v.size() + shift]);
  std::copy(v.begin(), v.end(), p.get() + shift);
  std::uint64_t const actual =
      Fingerprint2011(Array<std::uint8_t const>(p.get() + shift, v.size()));
  REQUIRE(actual == expected);
  REQUIRE(actual > 1);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::InstallFatalHandler();
  return pbt::Main(
      argc, argv,
      {{"hexadecimal_round_trip",
        "payloads of 0-3000 bytes (uniform, constant, two-valued); non-trivial "
        "if not empty; oracle: independent encoder, exact heap buffers under "
        "the address sanitizer",
        20000, 400000, HexadecimalRoundTrip},
       {"base64_round_trip", "as above, URL-safe unpadded RFC 4648", 20000,
        400000, Base64RoundTrip},
       {"base32768_round_trip",
        "as above, 15-bit groups padded with ones, 7-bit last group", 20000,
        400000, Base32768RoundTrip},
       {"hexadecimal_decode_arbitrary",
        "arbitrary text of 0-59 chars; non-trivial if 2 chars or more", 20000,
        400000, HexadecimalDecodeArbitrary},
       {"hexadecimal_overlap",
        "in-place and overlapping buffers at the limits of the contract", 10000,
        200000, HexadecimalOverlap},
       {"base32768_repertoire",
        "all 2^15 groups sampled, and the whole table occasionally", 4000,
        60000, Base32768Repertoire},
       {"fingerprint", "payloads as above at any alignment; non-trivial if 2 "
        "bytes or more", 10000, 200000, Fingerprint}});
}
