// One trait family (TID) x one operation group (OP_DEC / OP_ENC / OP_MERGE)
#include "vt_codec.hpp"
#include "codec.hpp"
#include <hpp_proto/merge.hpp>
using namespace drv;
namespace {
#if TID == 0
using Tr = hpp_proto::default_traits;
#elif TID == 1
using Tr = hpp_proto::stable_traits;
#elif TID == 2
using Tr = hpp_proto::pmr_traits;
#elif TID == 3
using Tr = hpp_proto::pmr_stable_traits;
#elif TID == 4
using Tr = hpp_proto::non_owning_traits;
#elif TID == 5
using Tr = hpp_proto::keep_unknown_fields<hpp_proto::stable_traits>;
#elif TID == 6
using Tr = hpp_proto::keep_unknown_fields<hpp_proto::non_owning_traits>;
#elif TID == 7
using Tr = hpp_proto::keep_unknown_fields<hpp_proto::pmr_stable_traits>;
#endif
constexpr bool with_mr = TID == 2 || TID == 3 || TID == 4 || TID == 6 || TID == 7;

#ifdef OP_DEC
template <class M> Res dec(const Bytes &in, const std::string &form, const Bytes *pre, int) {
  if constexpr (with_mr) {
    std::pmr::monotonic_buffer_resource mr;
    M m{};
    if (pre) (void)hpp_proto::read_binpb(m, *pre, hpp_proto::alloc_from(mr));
    return run_dec(m, in, form, false, hpp_proto::alloc_from(mr));
  } else {
    M m{};
    if (pre) (void)hpp_proto::read_binpb(m, *pre);
    return run_dec(m, in, form, false);
  }
}
#endif
#ifdef OP_DECLIM
template <class F> auto with_limit(int lim, F f) {
  if (lim == 3) return f(hpp_proto::recursion_limit<3>);
  if (lim == 1000) return f(); // the default limit of 100
  return f(hpp_proto::detail::runtime_recursion_limit{std::uint32_t(lim)});
}
template <class M> Res declim(const Bytes &in, const std::string &form, const Bytes *, int lim) {
  return with_limit(lim, [&](auto... o) {
    if constexpr (with_mr) {
      std::pmr::monotonic_buffer_resource mr;
      M m{};
      return run_dec(m, in, form, false, hpp_proto::alloc_from(mr), o...);
    } else {
      M m{};
      return run_dec(m, in, form, false, o...);
    }
  });
}
template <class M> std::string enclim(const V &v, int lim) {
  Arena ar;
  M m{};
  build(ar, v, m);
  auto one = [&](int l) {
    return with_limit(l, [&](auto... o) -> std::string {
      std::vector<std::byte> b;
      Sink s;
      s.sizes = {7};
      s.reported = 7;
      s.limited = false;
      bool x = hpp_proto::write_binpb(m, b, o...).ok();
      bool y = hpp_proto::write_binpb(m, s, hpp_proto::chunked_mode, o...).ok();
      if (x && s.result().b != b) return "[4,[]]";
      return std::string(x == y ? (x ? "[1,[]]" : "[0,[]]") : "[3,[]]");
    });
  };
  std::string r = one(lim);
  return "\"res\":[" + r + "],\"forms\":[\"V,c7\"]";
}
#endif
#ifdef OP_MEM
template <class M> std::string mem(const Bytes &in, const std::string &form, const std::string &pre) {
  return run_mem<TID == 4 || TID == 6, M>(in, form, pre);
}
#endif
#ifdef OP_ENC
template <class M> std::string enc(const V &v, const std::vector<std::string> &forms) {
  Arena ar;
  M m{};
  build(ar, v, m);
  std::string o = "\"rv\":" + dumps(m, true) + ",\"cv\":" + dumps(m);
  std::vector<std::pair<std::string, std::string>> seen;
  std::string rt = "[0,[]]";
  {
    EncRes r = run_enc(m, "V", 0);
    if (r.ok == 1) {
      Res d;
      if constexpr (with_mr) {
        std::pmr::monotonic_buffer_resource mr;
        M n{};
        d = run_dec(n, r.b, "C", false, hpp_proto::alloc_from(mr));
      } else {
        M n{};
        d = run_dec(n, r.b, "C", false);
      }
      rt = "[" + std::to_string(d.ok) + "," + d.v + "]";
    }
    for (auto &f : forms) {
      EncRes e = run_enc(m, f, r.b.size());
      std::string res = "[" + std::to_string(e.ok) + "," + (e.ok == 1 ? jbytes(e.b) : "[]") + "]";
      auto s = std::find_if(seen.begin(), seen.end(), [&](auto &p) { return p.first == res; });
      if (s == seen.end()) seen.emplace_back(res, f);
      else if (s->second.size() < 300) s->second += "," + f;
    }
  }
  std::string res, fs;
  for (auto &[a, b] : seen) {
    if (!res.empty()) res += ",", fs += ",";
    res += a;
    fs += "\"" + b + "\"";
  }
  return o + ",\"rt\":" + rt + ",\"res\":[" + res + "],\"forms\":[" + fs + "]";
}
#endif
#ifdef OP_MERGE
template <class M> std::string mrg(const V &a, const V &b, const std::vector<std::string> &forms) {
  std::string o;
  Arena ar;
  auto one = [&](const std::string &f) -> std::string {
    std::pmr::monotonic_buffer_resource mr;
    M x{}, y{};
    build(ar, a, x);
    build(ar, b, y);
    std::string before = dumps(y), res;
    bool same = true;
    try {
      auto go = [&](auto... opt) {
        if (f == "C") { hpp_proto::merge(x, std::as_const(y), opt...); same = dumps(y) == before; }
        else if (f == "L") { hpp_proto::merge(x, y, opt...); same = dumps(y) == before; }
        else hpp_proto::merge(x, std::move(y), opt...);
        res = dumps(x);
      };
      if constexpr (with_mr) go(hpp_proto::alloc_from(mr));
      else go();
    } catch (std::exception &e) { return "[2,[]]"; }
    return "[" + std::string(same ? "1" : "3") + "," + res + "]";
  };
  std::vector<std::pair<std::string, std::string>> seen;
  for (auto &f : forms) {
    auto res = one(f);
    auto s = std::find_if(seen.begin(), seen.end(), [&](auto &p) { return p.first == res; });
    if (s == seen.end()) seen.emplace_back(res, f);
    else s->second += "," + f;
  }
  std::string res, fs;
  for (auto &[p, q] : seen) {
    if (!res.empty()) res += ",", fs += ",";
    res += p;
    fs += "\"" + q + "\"";
  }
  return "\"res\":[" + res + "],\"forms\":[" + fs + "]";
}
#endif
struct Reg {
  Reg() {
    auto &o = registry()[TID];
    (void)o;
#ifdef OP_DEC
#define X(N, T) o.dec[#N] = dec<T<Tr>>;
    VT_ROOTS(X)
#undef X
#endif
#ifdef OP_MEM
#define X(N, T) o.mem[#N] = mem<T<Tr>>;
    VT_ROOTS(X)
#undef X
#endif
#ifdef OP_DECLIM
#define X(N, T) o.declim[#N] = declim<T<Tr>>; o.enclim[#N] = enclim<T<Tr>>;
    VT_ROOTS(X)
#undef X
#endif
#ifdef OP_ENC
#define X(N, T) o.enc[#N] = enc<T<Tr>>;
    VT_ROOTS(X)
#undef X
#endif
#ifdef OP_MERGE
#define X(N, T) o.merge[#N] = mrg<T<Tr>>;
    VT_ROOTS(X)
#undef X
#endif
  }
} reg;
} // namespace
