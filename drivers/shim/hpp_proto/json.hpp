// stands in for <hpp_proto/json.hpp>: the sandbox has no glaze; the text codecs use two of its helpers
#pragma once
#include <charconv>
#include <cstdint>
namespace glz {
inline char *to_chars(char *p, std::uint64_t v) { return std::to_chars(p, p + 20, v).ptr; }
template <char C> void dump(auto &b, auto &ix) { b[ix++] = C; }
} // namespace glz
