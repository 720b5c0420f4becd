// The is_utf8 library is not present in the sandbox; this stand-in decides well-formedness by decoding to scalar values
// (independently of the automaton of spec/Utf8.tla, which the checks compare it with).
#include <cstddef>
#include <cstdint>
extern "C" bool is_utf8(const char *src, std::size_t len) {
  auto p = reinterpret_cast<const unsigned char *>(src);
  std::size_t i = 0;
  while (i < len) {
    std::uint32_t c = p[i], u = 0;
    std::size_t n = c < 0x80 ? 1 : (c & 0xe0) == 0xc0 ? 2 : (c & 0xf0) == 0xe0 ? 3 : (c & 0xf8) == 0xf0 ? 4 : 0;
    if (n == 0 || len - i < n) return false;
    u = n == 1 ? c : n == 2 ? c & 0x1f : n == 3 ? c & 0x0f : c & 0x07;
    for (std::size_t k = 1; k < n; k++) {
      if ((p[i + k] & 0xc0) != 0x80) return false;
      u = u << 6 | (p[i + k] & 0x3f);
    }
    if ((n == 2 && u < 0x80) || (n == 3 && u < 0x800) || (n == 4 && u < 0x10000) || u > 0x10ffff || (u >= 0xd800 && u < 0xe000)) return false;
    i += n;
  }
  return true;
}
