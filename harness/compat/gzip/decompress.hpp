// Stand-in for mapbox/gzip-hpp (an empty git submodule here), on zlib.
#pragma once
#include <zlib.h>
#include <stdexcept>
#include <string>
namespace gzip {
inline std::string decompress(const char *data, std::size_t size) {
  z_stream s{};
  if (inflateInit2(&s, 15 + 32) != Z_OK) {
    throw std::runtime_error("inflate init failed");
  }
  std::string out;
  s.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(data));
  s.avail_in = static_cast<uInt>(size);
  int ret = Z_OK;
  do {
    char buf[16384];
    s.next_out = reinterpret_cast<Bytef *>(buf);
    s.avail_out = sizeof(buf);
    ret = inflate(&s, Z_FINISH);
    if (ret != Z_STREAM_END && ret != Z_OK && ret != Z_BUF_ERROR) {
      inflateEnd(&s);
      throw std::runtime_error("inflate failed");
    }
    out.append(buf, sizeof(buf) - s.avail_out);
  } while (s.avail_out == 0);
  inflateEnd(&s);
  return out;
}
} // namespace gzip
