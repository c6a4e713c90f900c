// A stand-in for the part of LLNL's zfp that Principia uses.  Same contract, not
// the same format: in accuracy mode each decompressed value is within the
// tolerance of the original; in reversible mode it is bit-identical.  Values
// are stored one per 64-bit word.  In accuracy mode, values are deliberately
// perturbed (rounded to a grid within the tolerance), so that code relying on
// losslessness in that mode is exposed.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <sys/types.h>

#define ZFP_VERSION 0x1000
#define ZFP_CODEC 5
#define ZFP_HEADER_MAGIC 0x1u
#define ZFP_HEADER_META 0x2u
#define ZFP_HEADER_MODE 0x4u
#define ZFP_HEADER_FULL 0x7u

typedef enum { zfp_type_none = 0, zfp_type_int32, zfp_type_int64,
               zfp_type_float, zfp_type_double } zfp_type;
struct bitstream { unsigned char* data; size_t capacity; size_t pos; };
struct zfp_field { zfp_type type; size_t nx, ny, nz, nw; void* data; };
struct zfp_stream { bitstream* stream; double tolerance; bool reversible; };

inline zfp_stream* zfp_stream_open(bitstream* s) {
  return new zfp_stream{s, 0, true};
}
inline void zfp_stream_close(zfp_stream* z) { delete z; }
inline void zfp_stream_set_reversible(zfp_stream* z) { z->reversible = true; }
inline double zfp_stream_set_accuracy(zfp_stream* z, double tolerance) {
  z->reversible = tolerance <= 0;
  z->tolerance = tolerance;
  return tolerance;
}
inline size_t principia_zfp_count(zfp_field const* f) {
  auto const n = [](size_t m) { return m == 0 ? size_t{1} : m; };
  return f->nx * n(f->ny) * n(f->nz) * n(f->nw);
}
inline size_t zfp_stream_maximum_size(zfp_stream const*, zfp_field const* f) {
  return 32 + 8 * principia_zfp_count(f);
}
// The real stream_open leaks unless stream_close is called; the caller does not
// call it, so use a thread-local pool.
inline bitstream* stream_open(void* buffer, size_t bytes) {
  static thread_local bitstream s;
  s = {static_cast<unsigned char*>(buffer), bytes, 0};
  return &s;
}
inline void stream_close(bitstream*) {}
inline void* stream_data(bitstream const* s) { return s->data; }
inline size_t stream_size(bitstream const* s) { return s->pos; }
inline void zfp_stream_set_bit_stream(zfp_stream* z, bitstream* s) {
  z->stream = s;
}
inline zfp_field* zfp_field_1d(void* p, zfp_type t, size_t nx) {
  return new zfp_field{t, nx, 0, 0, 0, p};
}
inline zfp_field* zfp_field_2d(void* p, zfp_type t, size_t nx, size_t ny) {
  return new zfp_field{t, nx, ny, 0, 0, p};
}
inline zfp_field* zfp_field_3d(void* p, zfp_type t, size_t nx, size_t ny,
                               size_t nz) {
  return new zfp_field{t, nx, ny, nz, 0, p};
}
inline zfp_field* zfp_field_4d(void* p, zfp_type t, size_t nx, size_t ny,
                               size_t nz, size_t nw) {
  return new zfp_field{t, nx, ny, nz, nw, p};
}
inline void zfp_field_free(zfp_field* f) { delete f; }
inline size_t zfp_write_header(zfp_stream* z, zfp_field const*, unsigned) {
  bitstream* s = z->stream;
  if (s->pos + 16 > s->capacity) return 0;
  std::memcpy(s->data + s->pos, "zfs\5", 4);
  std::uint32_t const r = z->reversible;
  std::memcpy(s->data + s->pos + 4, &r, 4);
  std::memcpy(s->data + s->pos + 8, &z->tolerance, 8);
  s->pos += 16;
  return 128;
}
inline size_t zfp_read_header(zfp_stream* z, zfp_field*, unsigned) {
  bitstream* s = z->stream;
  if (s->pos + 16 > s->capacity) return 0;
  if (std::memcmp(s->data + s->pos, "zfs\5", 4) != 0) return 0;
  std::uint32_t r;
  std::memcpy(&r, s->data + s->pos + 4, 4);
  z->reversible = r;
  std::memcpy(&z->tolerance, s->data + s->pos + 8, 8);
  s->pos += 16;
  return 128;
}
inline size_t zfp_compress(zfp_stream* z, zfp_field const* f) {
  bitstream* s = z->stream;
  size_t const n = principia_zfp_count(f);
  if (s->pos + 8 * n > s->capacity) return 0;
  double const* const v = static_cast<double const*>(f->data);
  double grid = 1;
  if (!z->reversible) {
    // A power of 2 no greater than the tolerance, so the error is at most half
    // of it.
    grid = std::exp2(std::floor(std::log2(z->tolerance)));
  }
  for (size_t i = 0; i < n; ++i) {
    double x = v[i];
    if (!z->reversible && std::isfinite(x) && std::fabs(x / grid) < 0x1p52) {
      x = std::nearbyint(x / grid) * grid;
    }
    std::memcpy(s->data + s->pos, &x, 8);
    s->pos += 8;
  }
  return s->pos;
}
inline size_t zfp_decompress(zfp_stream* z, zfp_field* f) {
  bitstream* s = z->stream;
  size_t const n = principia_zfp_count(f);
  if (s->pos + 8 * n > s->capacity) return 0;
  std::memcpy(f->data, s->data + s->pos, 8 * n);
  s->pos += 8 * n;
  return s->pos;
}
