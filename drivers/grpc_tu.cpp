// The codec operations of one trait family (TID) done through hpp_proto/grpc/serialization.hpp: decoding a byte buffer of any slices,
// encoding into a byte buffer.  The records are those of codec_main.cpp.
#include "vt_codec.hpp"
#include "codec.hpp"
#include <hpp_proto/grpc/serialization.hpp>
using namespace drv;
namespace {
#if TID == 0
using Tr = hpp_proto::default_traits;
#elif TID == 3
using Tr = hpp_proto::pmr_stable_traits;
#elif TID == 4
using Tr = hpp_proto::non_owning_traits;
#elif TID == 5
using Tr = hpp_proto::keep_unknown_fields<hpp_proto::stable_traits>;
#endif
constexpr bool with_mr = TID == 3 || TID == 4;

// slices that copy (small ones are stored inside the slice), that only refer, and that own exactly their bytes
grpc::Slice slice(const std::byte *p, size_t n, int how, std::deque<Exact> &keep) {
  switch (how % 4) {
  case 0: return grpc::Slice(p, n);
  case 1: keep.emplace_back(p, n); return grpc::Slice(keep.back().span().data(), n, grpc::Slice::STATIC_SLICE);
  case 2: if (n) { auto *b = new char[n]; std::memcpy(b, p, n); return grpc::Slice(b, n, [](void *x) { delete[] static_cast<char *>(x); }); } return grpc::Slice();
  default: { // a part of a bigger one
    Bytes big(n + 40, std::byte{0x81});
    if (n) std::memcpy(big.data() + 20, p, n);
    grpc_slice whole = grpc_slice_from_copied_buffer(reinterpret_cast<const char *>(big.data()), big.size());
    grpc::Slice s(grpc_slice_sub(whole, 20, 20 + n), grpc::Slice::STEAL_REF);
    grpc_slice_unref(whole);
    return s; }
  }
}
// form: a letter a..h (how the slices are made and which call is used), then the cuts as for chunked input; '0': no slice at all, D: a default-constructed buffer
template <class M, class... O> Res gdec(M &m, const Bytes &in, const std::string &form0, O &&...opt) {
  Res r;
  std::string form = form0;
  int how = int(std::hash<std::string>{}(form0 + std::to_string(in.size())) % 97);
  try {
    std::deque<Exact> keep;
    grpc::Status st;
    {
      std::vector<grpc::Slice> sl;
      size_t pos = 0, i = 0;
      if (form[0] == 'C' || form[0] == 'P') form = "X" + std::to_string(in.size());
      for (auto n : split_sizes(form, in.size())) {
        if (form0[0] == 'C' && sl.size()) break; // exactly one slice
        sl.push_back(slice(in.data() + pos, n, how + int(i++) * (1 + how / 4 % 3), keep));
        pos += n;
      }
      grpc::ByteBuffer bb(sl.data(), sl.size());
      if (in.empty() && how % 2) bb = grpc::ByteBuffer(nullptr, 0);
      if (how % 5 == 0) { grpc::ByteBuffer copy(bb); bb.Swap(&copy); }
      sl.clear();
      if (how % 3 == 0) {
        hpp_proto::pb_context ctx{opt...};
        hpp_proto::with_pb_context w{m, ctx};
        st = grpc::SerializationTraits<decltype(w)>::Deserialize(&bb, &w);
        if (bb.Valid() && bb.Length()) r.ok = 3;
      } else if (how % 3 == 1) {
        hpp_proto::pb_context ctx{opt...};
        st = hpp_proto::grpc::read_binpb(m, std::as_const(bb), ctx);
      } else {
        st = hpp_proto::grpc::read_binpb(m, bb, opt...);
      }
      if (how % 3 && !in.empty() && bb.Length() != in.size()) r.ok = 3;
    }
    if (r.ok == 3) return r;
    if (st.ok()) r.v = dumps(m); // the buffer and its slices are gone
    r.ok = st.ok();
    r.ec = int(st.error_code());
  } catch (std::exception &e) {
    r.ok = 2;
    r.ex = e.what();
  }
  return r;
}
template <class M, class... O> Res gdec_pre(const Bytes &in, const std::string &form, const Bytes *pre, O... o) {
  M m{};
  if (pre) (void)hpp_proto::read_binpb(m, *pre, o...);
  return gdec(m, in, form, o...);
}
template <class M> Res dec(const Bytes &in, const std::string &form, const Bytes *pre, int) {
  if constexpr (with_mr) {
    std::pmr::monotonic_buffer_resource mr;
    return gdec_pre<M>(in, form, pre, hpp_proto::alloc_from(mr));
  } else return gdec_pre<M>(in, form, pre);
}
template <class F> auto with_limit(int lim, F f) {
  if (lim == 3) return f(hpp_proto::recursion_limit<3>);
  if (lim == 1000) return f();
  return f(hpp_proto::detail::runtime_recursion_limit{std::uint32_t(lim)});
}
template <class M> Res declim(const Bytes &in, const std::string &form, const Bytes *, int lim) {
  return with_limit(lim, [&](auto... o) {
    if constexpr (with_mr) {
      std::pmr::monotonic_buffer_resource mr;
      return gdec_pre<M>(in, form, nullptr, hpp_proto::alloc_from(mr), o...);
    } else return gdec_pre<M>(in, form, nullptr, o...);
  });
}
Bytes all(const grpc::ByteBuffer &b) {
  std::vector<grpc::Slice> sl;
  Bytes o;
  if (!b.Valid()) return o;
  if (!b.Dump(&sl).ok()) throw std::runtime_error("no dump");
  for (auto &s : sl) o.insert(o.end(), reinterpret_cast<const std::byte *>(s.begin()), reinterpret_cast<const std::byte *>(s.end()));
  return o;
}
// form: c contiguous, a adaptive, k chunked, d no mode ; then r the free function, t the serialization traits, x a context, s<n> the sink with chunks of n
template <class M, class... O> EncRes genc(const M &m, const std::string &f, O... opt) {
  EncRes e;
  auto go = [&](auto... mode) {
    grpc::ByteBuffer bb;
    if (f.size() > 2 && f[2] == 'o') { grpc::Slice old("something old"); bb = grpc::ByteBuffer(&old, 1); }
    grpc::Status st;
    if (f[1] == 's') {
      std::pmr::monotonic_buffer_resource mr;
      hpp_proto::grpc::byte_buffer_sink sink{mr, size_t(std::stoul(f.substr(2)))};
      hpp_proto::pb_context ctx{mode..., opt...};
      if (hpp_proto::write_binpb(m, sink, ctx).ok()) sink.finalize(bb);
      else st = grpc::Status(grpc::StatusCode::INTERNAL, "");
    } else if (f[1] == 't') {
      hpp_proto::pb_context ctx{mode..., opt...};
      const hpp_proto::with_pb_context w{m, ctx};
      bool own = false;
      st = grpc::SerializationTraits<std::remove_cv_t<decltype(w)>>::Serialize(w, &bb, &own);
      if (!own) st = grpc::Status(grpc::StatusCode::DATA_LOSS, "not owned");
    } else if (f[1] == 'x') {
      hpp_proto::pb_context ctx{mode..., opt...};
      st = hpp_proto::grpc::write_binpb(m, bb, ctx);
    } else st = hpp_proto::grpc::write_binpb(m, bb, mode..., opt...);
    e.ok = st.ok() ? 1 : 0;
    if (st.error_code() == grpc::StatusCode::DATA_LOSS) e.ok = 2;
    if (st.ok()) e.b = all(bb);
    if (st.ok() && bb.Valid() && bb.Length() != e.b.size()) e.ok = 3;
  };
  try {
    if (f[0] == 'c') go(hpp_proto::contiguous_mode);
    else if (f[0] == 'a') go(hpp_proto::adaptive_mode);
    else if (f[0] == 'k') go(hpp_proto::chunked_mode);
    else go();
  } catch (std::exception &x) { e.ok = 2; }
  return e;
}
template <class M> std::string enc(const V &v, const std::vector<std::string> &forms) {
  Arena ar;
  M m{};
  build(ar, v, m);
  std::string o = "\"rv\":" + dumps(m, true) + ",\"cv\":" + dumps(m);
  std::vector<std::pair<std::string, std::string>> seen;
  std::string rt = "[0,[]]";
  EncRes r = genc(m, "dr");
  if (r.ok == 1) {
    Res d = dec<M>(r.b, "K3.5", nullptr, -1);
    rt = "[" + std::to_string(d.ok) + "," + d.v + "]";
  }
  for (auto &f : forms) {
    EncRes e = genc(m, f);
    std::string res = "[" + std::to_string(e.ok) + "," + (e.ok == 1 ? jbytes(e.b) : "[]") + "]";
    auto s = std::find_if(seen.begin(), seen.end(), [&](auto &p) { return p.first == res; });
    if (s == seen.end()) seen.emplace_back(res, f);
    else s->second += "," + f;
  }
  std::string res, fs;
  for (auto &[a, b] : seen) {
    if (!res.empty()) res += ",", fs += ",";
    res += a;
    fs += "\"" + b + "\"";
  }
  return o + ",\"rt\":" + rt + ",\"res\":[" + res + "],\"forms\":[" + fs + "]";
}
template <class M> std::string enclim(const V &v, int lim) {
  Arena ar;
  M m{};
  build(ar, v, m);
  std::string r;
  for (auto f : {"dr", "ct", "kx", "ks5"}) r += (r.empty() ? "[" : ",[") + std::to_string(with_limit(lim, [&](auto... o) { return genc(m, f, o...).ok; })) + ",[]]";
  return "\"res\":[" + r + "],\"forms\":[\"dr\",\"ct\",\"kx\",\"ks5\"]";
}
template <class M, size_t L> void lim(Ops &o, const char (&name)[L]) {
  if constexpr (hpp_proto::concepts::has_meta<M> && (std::is_same_v<M, vt::N3<Tr>> || std::is_same_v<M, vt::G2<Tr>> || std::is_same_v<M, vt::U3<Tr>>)) o.declim[name] = declim<M>, o.enclim[name] = enclim<M>;
}
struct Reg {
  Reg() {
    auto &o = registry()[TID];
#define X(N, T) o.dec[#N] = dec<T<Tr>>; o.enc[#N] = enc<T<Tr>>; lim<T<Tr>>(o, #N);
    VT_ROOTS(X)
#undef X
  }
} reg;
} // namespace
