// A stand-in for the Gipfeli compressor: the same interface and contract
// (lossless, bounded expansion), a trivial run-length format.
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include "gipfeli/sinksource.h"
namespace google::compression {
class Compressor {
 public:
  virtual ~Compressor() = default;
  virtual size_t MaxCompressedLength(size_t n) const = 0;
  virtual bool CompressString(std::string const& in, std::string* out) const = 0;
  virtual bool UncompressString(std::string const& in,
                                std::string* out) const = 0;
  size_t Compress(std::string const& in, std::string* out) {
    CompressString(in, out);
    return out->size();
  }
  bool Uncompress(std::string const& in, std::string* out) {
    return UncompressString(in, out);
  }
  size_t CompressStream(Source* in, Sink* out) {
    std::string c;
    CompressString(Drain(in), &c);
    Emit(c, out);
    return c.size();
  }
  bool UncompressStream(Source* in, Sink* out) {
    std::string u;
    if (!UncompressString(Drain(in), &u)) return false;
    Emit(u, out);
    return true;
  }

 private:
  static std::string Drain(Source* in) {
    std::string s;
    while (in->Available() > 0) {
      size_t n;
      char const* const p = in->Peek(&n);
      s.append(p, n);
      in->Skip(n);
    }
    return s;
  }
  static void Emit(std::string const& s, Sink* out) {
    // Alternate between the two ways of writing to a sink.
    size_t const half = s.size() / 2;
    out->Append(s.data(), half);
    size_t allocated;
    size_t const rest = s.size() - half;
    char* const p = out->GetAppendBuffer(rest, rest, nullptr, 0, &allocated);
    if (rest > 0 && allocated >= rest) {
      std::memcpy(p, s.data() + half, rest);
      out->Append(p, rest);
    } else {
      out->Append(s.data() + half, rest);
    }
  }
};
class PrincipiaRunLengthCompressor final : public Compressor {
 public:
  // 8 bytes of length, then (control, data): control < 128: that many + 1
  // literal bytes; otherwise control - 126 copies of one byte.
  size_t MaxCompressedLength(size_t n) const override {
    return 8 + n + (n + 127) / 128 + 1;
  }
  bool CompressString(std::string const& in, std::string* out) const override {
    out->clear();
    std::uint64_t const n = in.size();
    out->append(reinterpret_cast<char const*>(&n), 8);
    size_t i = 0;
    while (i < n) {
      size_t run = 1;
      while (i + run < n && run < 129 && in[i + run] == in[i]) ++run;
      if (run >= 3) {
        out->push_back(static_cast<char>(run + 126));
        out->push_back(in[i]);
        i += run;
      } else {
        size_t const start = i;
        while (i < n && i - start < 128 &&
               !(i + 2 < n && in[i] == in[i + 1] && in[i] == in[i + 2])) {
          ++i;
        }
        out->push_back(static_cast<char>(i - start - 1));
        out->append(in, start, i - start);
      }
    }
    return true;
  }
  bool UncompressString(std::string const& in,
                        std::string* out) const override {
    out->clear();
    if (in.size() < 8) return false;
    std::uint64_t n;
    std::memcpy(&n, in.data(), 8);
    size_t i = 8;
    while (i < in.size()) {
      unsigned const c = static_cast<unsigned char>(in[i++]);
      if (c < 128) {
        if (i + c + 1 > in.size()) return false;
        out->append(in, i, c + 1);
        i += c + 1;
      } else {
        if (i >= in.size()) return false;
        out->append(c - 126, in[i++]);
      }
    }
    return out->size() == n;
  }
};
inline std::unique_ptr<Compressor> NewGipfeliCompressor() {
  return std::make_unique<PrincipiaRunLengthCompressor>();
}
}  // namespace google::compression
