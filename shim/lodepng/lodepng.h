#pragma once
#include <cstddef>
inline unsigned lodepng_encode32(unsigned char** out, size_t* n, const unsigned char*, unsigned, unsigned) { *out = nullptr; *n = 0; return 0; }
inline unsigned lodepng_encode32_file(const char*, const unsigned char*, unsigned, unsigned) { return 0; }
inline unsigned lodepng_decode32_file(unsigned char** out, unsigned* w, unsigned* h, const char*) { *out = nullptr; return 1; }
inline const char* lodepng_error_text(unsigned) { return "stub"; }
