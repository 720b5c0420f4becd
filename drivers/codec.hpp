// decode / encode / merge operations on the generated messages of the vt schema
#pragma once
#include "drv.hpp"
namespace drv {
struct Res { int ok = 0; int ec = 0; std::string v = "[]"; std::string ex; };
using DecFn = std::function<Res(const Bytes &in, const std::string &form, const Bytes *pre, int lim)>;

inline std::vector<size_t> split_sizes(const std::string &form, size_t n) {
  // K<a>.<b>.. : cyclic chunk sizes ; X<i>: two chunks cut at i ; Y<i>.<j>: three chunks
  std::vector<size_t> r, out;
  std::stringstream ss(form.substr(1));
  std::string t;
  while (std::getline(ss, t, '.')) r.push_back(std::stoul(t));
  if (form[0] == 'X' || form[0] == 'Y') {
    size_t prev = 0;
    for (auto c : r) { c = std::min(c, n); c = std::max(c, prev); out.push_back(c - prev); prev = c; }
    out.push_back(n - prev);
    return out;
  }
  size_t pos = 0, i = 0;
  while (pos < n) {
    size_t c = std::min(r[i % r.size()], n - pos);
    out.push_back(c);
    pos += c;
    ++i;
    if (i > 4 * n + 8) { out.push_back(n - pos); break; }
  }
  return out;
}

template <class M> std::string dumps(const M &m, bool raw = false) {
  W w;
  w.raw = raw;
  dump(w, m);
  return w.s;
}

template <class M, class... O> Res run_dec(M &m, const Bytes &in, const std::string &form, bool fresh_api, O &&...opt) {
  Res r;
  try {
    hpp_proto::status st;
    if (form[0] == 'C') {
      Exact e(in.data(), in.size());
      st = hpp_proto::read_binpb(m, e.span(), opt...);
      if (st.ok()) { r.v = dumps(m); }
      r.ok = st.ok();
      r.ec = int(st.ec);
      return r;
    } else if (form[0] == 'P') {
      Bytes pad = in;
      pad.resize(in.size() + 16);
      for (size_t i = 1; i < 16; ++i) pad[in.size() + i] = std::byte(form.size() > 1 ? 0x81 : 0xff);
      pad[in.size()] = std::byte{0};
      Exact e(pad.data(), pad.size());
      st = hpp_proto::read_binpb(m, e.span().first(in.size()), hpp_proto::padded_input, opt...);
      if (st.ok()) { r.v = dumps(m); }
      r.ok = st.ok();
      r.ec = int(st.ec);
      return r;
    } else {
      std::deque<Exact> ex;
      std::vector<std::span<const std::byte>> spans;
      size_t pos = 0;
      for (auto n : split_sizes(form, in.size())) {
        ex.emplace_back(in.data() + pos, n);
        spans.push_back(ex.back().span());
        pos += n;
      }
      st = hpp_proto::read_binpb(m, spans, opt...);
      if (st.ok()) { r.v = dumps(m); }
      r.ok = st.ok();
      r.ec = int(st.ec);
      return r;
    }
  } catch (std::exception &e) {
    r.ok = 2;
    r.ex = e.what();
  }
  return r;
}

// ------------------------------------------------------------------ encoding
struct EncRes { int ok = 0; Bytes b; };
// chunks are separate exact heap blocks; every byte is pre-set so that writes past the message are visible
struct Sink {
  using slice_type = std::span<std::byte>;
  std::vector<size_t> sizes;
  size_t reported, msg = size_t(-1), next = 0;
  bool limited; // grants at most the message size in total
  size_t granted = 0;
  std::deque<std::vector<std::byte>> chunks;
  void set_message_size(size_t n) { msg = n; }
  size_t chunk_size() const { return reported; }
  std::span<std::byte> next_chunk() {
    size_t n = sizes[next++ % sizes.size()];
    if (limited) n = std::min(n, msg - granted);
    granted += n;
    if (next > 100000) return {};
    chunks.emplace_back(n);
    std::fill(chunks.back().begin(), chunks.back().end(), std::byte{0xEE});
    return {chunks.back().data(), n};
  }
  EncRes result() const {
    EncRes r;
    for (auto &c : chunks) r.b.insert(r.b.end(), c.begin(), c.end());
    r.ok = 1;
    if (r.b.size() < msg) { r.ok = 4; return r; }
    for (size_t i = msg; i < r.b.size(); ++i)
      if (r.b[i] != std::byte{0xEE}) r.ok = 5;
    r.b.resize(msg);
    return r;
  }
};
// a buffer of fixed size over exactly sized heap memory
struct FixedBuf {
  using value_type = std::byte;
  std::unique_ptr<std::byte[]> p;
  size_t n;
  explicit FixedBuf(size_t n) : p(new std::byte[n]), n(n) { std::fill(p.get(), p.get() + n, std::byte{0xEE}); }
  std::byte *data() { return p.get(); }
  const std::byte *data() const { return p.get(); }
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  std::byte *begin() { return p.get(); }
  std::byte *end() { return p.get() + n; }
  const std::byte *begin() const { return p.get(); }
  const std::byte *end() const { return p.get() + n; }
};
template <class B> Bytes to_bytes(const B &b) {
  auto *p = reinterpret_cast<const std::byte *>(b.data());
  return Bytes(p, p + b.size());
}
// V S U R A: containers;  N: value returning API;  P<n>/PS<n>/PU<n>: append;  F<d>: fixed span of (size + d);
// a<n> c<n> g<n> d<n> (sinks with chunks of n; several sizes separated by dots)
template <class M> EncRes run_enc(const M &m, const std::string &f, size_t size) {
  EncRes r;
  auto num = [&](size_t at) { return std::stol(f.substr(at)); };
  try {
    switch (f[0]) {
    case 'V': {
      std::vector<std::byte> b(f.size() > 1 ? 50 : 0, std::byte{0x77});
      r.ok = hpp_proto::write_binpb(m, b).ok();
      r.b = to_bytes(b);
      return r;
    }
    case 'S': {
      std::string b = f.size() > 1 ? "leftover content of the buffer" : "";
      r.ok = hpp_proto::write_binpb(m, b).ok();
      r.b = to_bytes(b);
      return r;
    }
    case 'U': {
      std::vector<unsigned char> b{1, 2, 3};
      r.ok = hpp_proto::write_binpb(m, b).ok();
      r.b = to_bytes(b);
      return r;
    }
    case 'R': {
      std::pmr::monotonic_buffer_resource mr;
      std::pmr::vector<std::byte> b(&mr);
      r.ok = hpp_proto::write_binpb(m, b).ok();
      r.b = to_bytes(b);
      return r;
    }
    case 'A': {
      std::pmr::monotonic_buffer_resource mr;
      hpp_proto::equality_comparable_span<const std::byte> b;
      r.ok = hpp_proto::write_binpb(m, b, hpp_proto::alloc_from(mr)).ok();
      r.b = to_bytes(b);
      return r;
    }
    case 'N': {
      auto e = hpp_proto::write_binpb(m);
      r.ok = e.has_value();
      if (e) r.b = to_bytes(*e);
      return r;
    }
    case 'P': {
      size_t n = size_t(num(f[1] > '9' ? 2 : 1));
      auto app = [&](auto &b) {
        r.ok = hpp_proto::append_binpb(m, b).ok();
        r.b = to_bytes(b);
        if (r.b.size() < n) { r.ok = 3; return; }
        for (size_t i = 0; i < n; ++i)
          if (r.b[i] != std::byte(0x30 + i % 77)) r.ok = 3;
        r.b.erase(r.b.begin(), r.b.begin() + long(n));
      };
      if (f[1] == 'S') { std::string b; for (size_t i = 0; i < n; ++i) b += char(0x30 + i % 77); app(b); }
      else if (f[1] == 'U') { std::vector<unsigned char> b; for (size_t i = 0; i < n; ++i) b.push_back((unsigned char)(0x30 + i % 77)); app(b); }
      else { std::vector<std::byte> b; for (size_t i = 0; i < n; ++i) b.push_back(std::byte(0x30 + i % 77)); app(b); }
      return r;
    }
    case 'F': {
      long d = num(1);
      if (long(size) + d < 0) d = -long(size);
      bool small = d < 0;
      size_t n = size_t(long(size) + d);
      FixedBuf sp(n);
      r.ok = hpp_proto::write_binpb(m, sp).ok();
      if (small) { r.ok = r.ok ? 6 : 7; return r; } // 7: refused as it should be
      r.b = to_bytes(sp);
      for (size_t i = size; i < n; ++i)
        if (r.b[i] != std::byte{0xEE}) r.ok = 5;
      r.b.resize(size);
      return r;
    }
    case 'a': case 'c': case 'g': case 'd': {
      Sink s;
      std::stringstream ss(f.substr(1));
      std::string t;
      s.limited = false;
      while (std::getline(ss, t, '.')) {
        if (t == "L") { s.limited = true; continue; }
        if (t == "=") s.sizes.push_back(size);
        else s.sizes.push_back(std::stoul(t));
      }
      s.reported = *std::min_element(s.sizes.begin(), s.sizes.end());
      bool small = f[0] == 'g' && s.sizes[0] < size;
      if (f[0] == 'a') r.ok = hpp_proto::write_binpb(m, s, hpp_proto::adaptive_mode).ok();
      else if (f[0] == 'c') r.ok = hpp_proto::write_binpb(m, s, hpp_proto::chunked_mode).ok();
      else if (f[0] == 'g') r.ok = hpp_proto::write_binpb(m, s, hpp_proto::contiguous_mode).ok();
      else r.ok = hpp_proto::write_binpb(m, s).ok();
      if (small) { r.ok = r.ok ? 6 : 7; return r; }
      if (!r.ok) return r;
      return s.result();
    }
    }
  } catch (std::exception &e) {
    r.ok = 2;
  }
  return r;
}
// ------------------------------------------------------------------ memory
// a resource that logs what is taken from it and given back
struct LogRes : std::pmr::memory_resource {
  LogRes() = default;
  LogRes(const LogRes &) = delete;
  LogRes &operator=(const LogRes &) = delete;
  struct Blk { std::unique_ptr<std::byte[]> p; size_t n; size_t off; bool live; };
  std::vector<Blk> blks;
  std::string log;
  size_t events = 0;
  void ev(int k, size_t id, size_t n) {
    if (!log.empty()) log += ',';
    log += "[" + std::to_string(k) + "," + std::to_string(id) + "," + std::to_string(n) + "]";
    ++events;
  }
  void *do_allocate(size_t n, size_t al) override {
    blks.push_back({std::unique_ptr<std::byte[]>(new std::byte[n + al + 1]), n, 0, true});
    auto a = reinterpret_cast<std::uintptr_t>(blks.back().p.get());
    blks.back().off = (al - a % al) % al;
    ev(1, blks.size(), n);
    return blks.back().p.get() + blks.back().off;
  }
  void do_deallocate(void *q, size_t n, size_t) override {
    for (size_t i = blks.size(); i-- > 0;)
      if (blks[i].p.get() + blks[i].off == q && blks[i].live) {
        blks[i].live = false;
        ev(0, i + 1, n);
        return;
      }
    ev(0, 0, n);
  }
  bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};
extern "C" char __executable_start, end;
// decodes with everything the message needs taken from r, and reports where its parts are
template <bool View, class M> std::string run_mem(const Bytes &in, const std::string &form, const std::string &pre) {
  LogRes r, other, tmp;
  auto *old = std::pmr::set_default_resource(View ? &other : &r);
  std::string out, phase1;
  bool ok = false, same = false;
  int thrown = 0;
  size_t after = 0;
  std::string v = "[]", parts;
  {
    Bytes pb = pre.empty() ? Bytes{} : unhex(pre);
    M m{};
    std::deque<Exact> ex;
    try {
      if (!pre.empty()) {
        if constexpr (View) (void)hpp_proto::read_binpb(m, pb, hpp_proto::alloc_from(r));
        else (void)hpp_proto::read_binpb(m, pb);
      }
      auto go = [&](auto &&i, auto... o) {
        if constexpr (View) ok = hpp_proto::read_binpb(m, i, hpp_proto::alloc_from(r), o...).ok();
        else ok = hpp_proto::read_binpb(m, i, o...).ok();
      };
      if (form[0] == 'C') {
        ex.emplace_back(in.data(), in.size());
        go(ex.back().span());
      } else if (form[0] == 'P') {
        Bytes pad = in;
        pad.resize(in.size() + 16);
        for (size_t i = 1; i < 16; ++i) pad[in.size() + i] = std::byte{0xff};
        ex.emplace_back(pad.data(), pad.size());
        go(ex.back().span().first(in.size()), hpp_proto::padded_input);
      } else {
        std::vector<std::span<const std::byte>> spans;
        size_t pos = 0;
        for (auto n : split_sizes(form, in.size())) {
          ex.emplace_back(in.data() + pos, n);
          spans.push_back(ex.back().span());
          pos += n;
        }
        go(spans);
      }
    } catch (std::exception &) {
      thrown = 1;
    }
    size_t before = r.events;
    if (ok && !thrown) {
      W w;
      std::vector<std::array<std::uintptr_t, 3>> ps;
      w.parts = &ps;
      dump(w, m);
      v = w.s;
      if (View) { // owners may use the default resource for temporaries of their own
        std::vector<std::byte> b1;
        (void)hpp_proto::write_binpb(m, b1, hpp_proto::cache_alloc_from(tmp));
      }
      same = dumps(m) == v;
      auto root = reinterpret_cast<std::uintptr_t>(&m);
      auto stat = reinterpret_cast<std::uintptr_t>(&__executable_start), statend = reinterpret_cast<std::uintptr_t>(&end);
      for (auto &[a, n, text] : ps) {
        int reg = 0;
        size_t blk = 0, off = 0;
        if (a >= root && a + n <= root + sizeof(M)) reg = 3;
        if (!reg) for (auto &e : ex) {
          auto s = reinterpret_cast<std::uintptr_t>(e.p.get());
          if (a >= s && a + n <= s + e.n) { reg = 2; off = a - s; }
        }
        if (!reg) for (size_t i = r.blks.size(); i-- > 0;) {
          auto s = reinterpret_cast<std::uintptr_t>(r.blks[i].p.get() + r.blks[i].off);
          if (a >= s && a < s + r.blks[i].n) { reg = 1; blk = i + 1; off = a - s; break; }
        }
        if (!reg) for (auto &q : other.blks) {
          auto s = reinterpret_cast<std::uintptr_t>(q.p.get() + q.off);
          if (a >= s && a < s + q.n) reg = 5;
        }
        if (!reg && a >= stat && a < statend) reg = 4;
        if (!parts.empty()) parts += ',';
        parts += "[" + std::to_string(reg) + "," + std::to_string(blk) + "," + std::to_string(off) + "," + std::to_string(n) + "," + std::to_string(text) + "]";
      }
    }
    after = r.events - before;
    phase1 = r.log;
    r.log.clear();
  }
  std::pmr::set_default_resource(old);
  return "\"ok\":" + std::to_string(thrown ? 2 : ok) + ",\"v\":" + v + ",\"same\":" + (same ? "1" : "0") + ",\"after\":" + std::to_string(after) + ",\"log\":[" + phase1 + "],\"log2\":[" + r.log +
         "],\"parts\":[" + parts + "]";
}
struct Ops {
  std::map<std::string, std::function<std::string(const Bytes &, const std::string &, const std::string &)>> mem;
  std::map<std::string, DecFn> dec, declim;
  std::map<std::string, std::function<std::string(const V &, const std::vector<std::string> &)>> enc;
  std::map<std::string, std::function<std::string(const V &, const V &, const std::vector<std::string> &)>> merge;
  std::map<std::string, std::function<std::string(const V &, int)>> enclim;
};
inline std::map<int, Ops> &registry() { static std::map<int, Ops> r; return r; }
} // namespace drv
