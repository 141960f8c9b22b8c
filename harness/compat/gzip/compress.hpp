// Stand-in for mapbox/gzip-hpp (an empty git submodule here), on zlib.
#pragma once
#include <zlib.h>
#include <cstdint>
#include <limits>
#include <stdexcept>
#include <string>
namespace gzip {
inline std::string compress(const char *data, std::size_t size, int level = Z_DEFAULT_COMPRESSION) {
  z_stream s{};
  if (deflateInit2(&s, level, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY) != Z_OK) {
    throw std::runtime_error("deflate init failed");
  }
  std::string out;
  s.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(data));
  s.avail_in = static_cast<uInt>(size);
  do {
    char buf[16384];
    s.next_out = reinterpret_cast<Bytef *>(buf);
    s.avail_out = sizeof(buf);
    deflate(&s, Z_FINISH);
    out.append(buf, sizeof(buf) - s.avail_out);
  } while (s.avail_out == 0);
  deflateEnd(&s);
  return out;
}
} // namespace gzip
