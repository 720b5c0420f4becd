// One call of a text codec per line:  <id> <op> args   ->   {"id":..,"op":..,"x":..,"y":..}
#include <array>
#include <cassert>
#include <charconv>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <memory_resource>
#include <sstream>
#include <string>
#include <vector>
#include <hpp_proto/binpb.hpp>
#include <hpp_proto/json/base64.hpp>
#include <hpp_proto/json/duration_codec.hpp>
#include <hpp_proto/json/timestamp_codec.hpp>
using Str = std::string;
static Str unhex(const Str &h) { Str r; for (std::size_t i = 0; i + 1 < h.size(); i += 2) r += (char)std::stoi(h.substr(i, 2), nullptr, 16); return r; }
static Str codes(const auto &v) { Str r = "["; for (auto c : v) r += (r.size() > 1 ? "," : "") + std::to_string((unsigned)(unsigned char)c); return r + "]"; }
// memory of exactly the announced size, so that every byte too many is seen
struct Exact {
  std::size_t n;
  std::unique_ptr<char[]> p;
  explicit Exact(std::size_t k) : n(k), p(new char[k ? k : 1]) {}
  char *data() { return p.get(); }
  std::size_t size() const { return n; }
  char &operator[](std::size_t i) { return p[i]; }
  Str take(std::int64_t k) { return Str(p.get(), (std::size_t)k); }
};
struct Src { // the same for sources
  std::vector<char> v;
  explicit Src(const Str &s) : v(s.begin(), s.end()) { v.shrink_to_fit(); }
  std::string_view sv() const { return {v.data(), v.size()}; }
};
struct Inst { std::int64_t seconds = 77; std::int32_t nanos = 78; };
int main() {
  Str l;
  while (std::getline(std::cin, l)) {
    std::istringstream is(l);
    Str id, op, a;
    is >> id >> op;
    std::fprintf(stderr, "@%s\n", id.c_str());
    std::pmr::monotonic_buffer_resource mr;
    hpp_proto::pb_context ctx{hpp_proto::alloc_from{mr}};
    if (op == "b64e") {
      is >> a;
      Src s(unhex(a == "-" ? "" : a));
      Exact b(hpp_proto::base64::max_encode_size(s.v));
      auto k = hpp_proto::base64::encode(s.v, b);
      auto span = std::as_bytes(std::span(s.v));
      Exact b2(hpp_proto::base64::max_encode_size(span));
      auto k2 = hpp_proto::base64::encode(span, b2);
      bool same = k == k2 && k >= 0 && b.take(k) == b2.take(k2);
      std::printf("{\"id\":%s,\"op\":\"b64e\",\"x\":%s,\"y\":%s}\n", id.c_str(), codes(s.v).c_str(), same ? codes(b.take(k)).c_str() : "[-2]");
    } else if (op == "b64d") {
      is >> a;
      Src s(unhex(a == "-" ? "" : a));
      Str s1 = "left over from before, and longer than it ought to be ............", none;
      std::vector<std::byte> s2(3);
      std::vector<std::byte> old(5);
      std::string_view s3 = "old";
      hpp_proto::bytes_view s4(old.data(), old.size());
      bool r1 = hpp_proto::base64::decode(s.sv(), s1, ctx), r2 = hpp_proto::base64::decode(s.v, s2, ctx), r3 = hpp_proto::base64::decode(s.sv(), s3, ctx), r4 = hpp_proto::base64::decode(s.sv(), s4, ctx);
      Str y = r1 ? codes(s1) : "[-1]";
      if (r1 != r2 || r1 != r3 || r1 != r4 || (r1 && (codes(s2) != y || codes(s3) != y || codes(s4) != y))) y = "[-2]";
      std::printf("{\"id\":%s,\"op\":\"b64d\",\"x\":%s,\"y\":%s}\n", id.c_str(), codes(s.v).c_str(), y.c_str());
    } else if (op == "tse" || op == "due") {
      Inst v;
      is >> v.seconds >> v.nanos;
      auto run = [&](auto codec) {
        Exact b(codec.max_encode_size(v));
        auto k = codec.encode(v, b);
        return k < 0 ? Str("[-1]") : codes(b.take(k));
      };
      Str y = op == "tse" ? run(hpp_proto::timestamp_codec()) : run(hpp_proto::duration_codec());
      std::printf("{\"id\":%s,\"op\":\"%s\",\"x\":[%lld,%d],\"y\":%s}\n", id.c_str(), op.c_str(), (long long)v.seconds, v.nanos, y.c_str());
    } else {
      is >> a;
      Src s(unhex(a == "-" ? "" : a));
      Inst v;
      bool ok = op == "tsd" ? hpp_proto::timestamp_codec::decode(s.sv(), v, ctx) : hpp_proto::duration_codec::decode(s.sv(), v, ctx);
      std::printf("{\"id\":%s,\"op\":\"%s\",\"x\":%s,\"y\":", id.c_str(), op.c_str(), codes(s.v).c_str());
      if (ok) std::printf("[%lld,%d]}\n", (long long)v.seconds, v.nanos); else std::printf("[-1]}\n");
    }
  }
}
