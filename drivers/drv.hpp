// Shared driver helpers: abstract values (nested byte lists), dumping and building messages.
#pragma once
#include <hpp_proto/binpb.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <array>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <memory_resource>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <csignal>
#include <unistd.h>
#include <sys/resource.h>

namespace drv {
using Bytes = std::vector<std::byte>;
// ---------------------------------------------------------------- abstract values
struct V {
  long n = 0;
  bool leaf = false;
  std::vector<V> k;
  const V &operator[](size_t i) const { return k.at(i); }
  size_t size() const { return k.size(); }
};
inline V parseV(const char *&p) {
  V v;
  if (*p == '[') {
    ++p;
    while (*p != ']') {
      if (*p == ',') { ++p; continue; }
      v.k.push_back(parseV(p));
    }
    ++p;
  } else {
    v.leaf = true;
    v.n = std::strtol(p, const_cast<char **>(&p), 10);
  }
  return v;
}
inline V parseV(const std::string &s) { const char *p = s.c_str(); return parseV(p); }

struct W {
  std::string s;
  std::vector<std::array<std::uintptr_t, 3>> *parts = nullptr; // every piece of storage the message refers to: address, size, 1 = text
  void part(const void *p, size_t n, int text = 0) {
    if (parts && n) parts->push_back({reinterpret_cast<std::uintptr_t>(p), n, std::uintptr_t(text)});
  }
  bool raw = false; // iteration order of maps instead of canonical order
  void sep() { if (!s.empty() && s.back() != '[') s += ','; }
  void open() { sep(); s += '['; }
  void close() { s += ']'; }
  void num(long n) { sep(); s += std::to_string(n); }
  void bytes(const void *d, size_t n) {
    open();
    auto *p = static_cast<const unsigned char *>(d);
    for (size_t i = 0; i < n; ++i) num(p[i]);
    close();
  }
};

template <class T> concept Msg = hpp_proto::concepts::has_meta<std::remove_cvref_t<T>>;
template <class T> concept StrLike = requires(const T &t) { t.data(); t.size(); } && (sizeof(typename T::value_type) == 1) && !std::is_same_v<typename T::value_type, bool> && !std::is_same_v<typename T::value_type, hpp_proto::boolean>;

template <class T> void dv(W &w, const T &x) {
  if constexpr (!std::is_arithmetic_v<T> && !std::is_enum_v<T> && !std::is_same_v<T, hpp_proto::boolean>) w.part(std::addressof(x), sizeof x);
  if constexpr (std::is_same_v<T, bool> || std::is_same_v<T, hpp_proto::boolean>) {
    unsigned char c;
    std::memcpy(&c, &x, 1);
    w.bytes(&c, 1);
  } else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) {
    w.bytes(&x, sizeof x);
  } else if constexpr (StrLike<T>) {
    w.part(x.data(), x.size(), 1);
    w.bytes(x.data(), x.size());
  } else if constexpr (Msg<T>) {
    dump(w, x);
  } else { // indirect holders
    dv(w, *x);
  }
}
template <class O> void d_opt(W &w, const O &o) {
  w.open();
  if (o.has_value()) dv(w, *o);
  w.close();
}
template <class R> void d_rep(W &w, const R &r) {
  w.open();
  using T = typename R::value_type;
  if constexpr (requires { r.data(); }) w.part(r.data(), r.size() * sizeof(T));
  for (size_t i = 0; i < r.size(); ++i) dv<std::remove_cv_t<T>>(w, r[i]);
  w.close();
}
inline bool lexless(const std::vector<long> &a, const std::vector<long> &b) { return a < b; }
template <class R> void d_map(W &w, const R &r) {
  struct Ent { std::vector<long> k; std::string ks, vs; };
  std::vector<Ent> es;
  for (const auto &[k, v] : r) {
    W a, b;
    a.raw = b.raw = w.raw;
    a.parts = b.parts = w.parts;
    w.part(std::addressof(k), sizeof k);
    w.part(std::addressof(v), sizeof v);
    dv<std::remove_cvref_t<decltype(k)>>(a, k);
    dv<std::remove_cvref_t<decltype(v)>>(b, v);
    Ent e;
    V kv = parseV(a.s);
    for (auto &x : kv.k) e.k.push_back(x.n);
    e.ks = a.s;
    e.vs = b.s;
    if (!w.raw) {
      auto it = std::find_if(es.begin(), es.end(), [&](auto &q) { return q.k == e.k; });
      if constexpr (requires { typename R::key_type; }) {
        if (it != es.end()) { // a dictionary must not hold a key twice
          e.vs += ",[666]";
        }
      }
      if (it != es.end()) { *it = e; continue; }
    }
    es.push_back(e);
  }
  if (!w.raw) std::sort(es.begin(), es.end(), [](auto &a, auto &b) { return a.k < b.k; });
  w.open();
  for (auto &e : es) {
    w.open();
    w.s += e.ks + "," + e.vs;
    w.close();
  }
  w.close();
}
template <size_t I = 1, class Va> void d_one(W &w, const Va &v) {
  if constexpr (I == 1) w.open();
  if constexpr (I < std::variant_size_v<Va>) {
    if (v.index() == I) {
      w.num(I);
      dv(w, *std::get_if<I>(&v));
    } else
      d_one<I + 1>(w, v);
  }
  if constexpr (I == 1) w.close();
}
template <class U> void d_unk(W &w, const U &u) {
  if constexpr (requires { u.fields.data(); }) {
    w.part(u.fields.data(), u.fields.size(), 1);
    w.bytes(u.fields.data(), u.fields.size());
  } else {
    w.open();
    w.close();
  }
}

// ---------------------------------------------------------------- building
struct Arena {
  std::pmr::monotonic_buffer_resource mr;
  template <class T> T *make(size_t n) {
    auto *p = static_cast<T *>(mr.allocate(sizeof(T) * (n ? n : 1), alignof(T)));
    for (size_t i = 0; i < n; ++i) new (p + i) T{};
    return p;
  }
};
template <class T> struct is_view : std::false_type {};
template <> struct is_view<std::string_view> : std::true_type {};
template <class T> struct is_view<hpp_proto::equality_comparable_span<T>> : std::true_type {};

template <class T> void bv(Arena &ar, const V &v, T &x);
template <class T> void b_bytes(const V &v, T *out) {
  for (size_t i = 0; i < v.size(); ++i) reinterpret_cast<unsigned char *>(out)[i] = static_cast<unsigned char>(v[i].n);
}
template <class T> void bv(Arena &ar, const V &v, T &x) {
  if constexpr (std::is_same_v<T, bool> || std::is_same_v<T, hpp_proto::boolean>) {
    x = v[0].n != 0;
  } else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) {
    b_bytes(v, &x);
  } else if constexpr (StrLike<T>) {
    using C = std::remove_cv_t<typename T::value_type>;
    if constexpr (is_view<T>::value) {
      C *p = ar.make<C>(v.size());
      b_bytes(v, p);
      x = T{p, v.size()};
    } else {
      x.resize(v.size());
      b_bytes(v, x.data());
    }
  } else if constexpr (Msg<T>) {
    build(ar, v, x);
  } else if constexpr (requires(T t) { t.pointer(); } ) { // indirect_view
    using M = std::remove_cvref_t<decltype(*x)>;
    M *p = ar.make<M>(1);
    build(ar, v, *p);
    x.reset(p);
  } else { // indirect
    build(ar, v, *x);
  }
}
template <class O> void b_opt(Arena &ar, const V &v, O &o) {
  if (v.size() == 0) { return; }
  if constexpr (hpp_proto::concepts::optional_indirect_view<O>) {
    using M = std::remove_cv_t<typename O::value_type>;
    M *p = ar.make<M>(1);
    build(ar, v[0], *p);
    o = p;
  } else {
    using T = std::remove_cvref_t<decltype(*o)>;
    if constexpr (Msg<T>) {
      o.emplace();
      build(ar, v[0], *o);
    } else {
      T t{};
      bv(ar, v[0], t);
      o = t;
    }
  }
}
template <class R> void b_rep(Arena &ar, const V &v, R &r) {
  using T = std::remove_cv_t<typename R::value_type>;
  if constexpr (is_view<R>::value) {
    T *p = ar.make<T>(v.size());
    for (size_t i = 0; i < v.size(); ++i) bv(ar, v[i], p[i]);
    r = R{p, v.size()};
  } else {
    r.resize(v.size());
    for (size_t i = 0; i < v.size(); ++i) bv(ar, v[i], r[i]);
  }
}
template <class R> void b_map(Arena &ar, const V &v, R &r) {
  if constexpr (requires { typename R::key_type; }) {
    for (size_t i = 0; i < v.size(); ++i) {
      typename R::key_type k{};
      bv(ar, v[i][0], k);
      auto &x = r[k];
      bv(ar, v[i][1], x);
    }
  } else {
    using P = std::remove_cv_t<typename R::value_type>;
    P *p = ar.make<P>(v.size());
    for (size_t i = 0; i < v.size(); ++i) {
      bv(ar, v[i][0], p[i].first);
      bv(ar, v[i][1], p[i].second);
    }
    r = R{p, v.size()};
  }
}
template <size_t I = 1, class Va> void b_one(Arena &ar, const V &v, Va &x) {
  if (v.size() == 0) return;
  if constexpr (I < std::variant_size_v<Va>) {
    if (v[0].n == long(I)) {
      x.template emplace<I>();
      bv(ar, v[1], *std::get_if<I>(&x));
    } else
      b_one<I + 1>(ar, v, x);
  }
}
template <class U> void b_unk(Arena &ar, const V &v, U &u) {
  if constexpr (requires { u.fields.data(); }) bv(ar, v, u.fields);
}
// ---------------------------------------------------------------- misc
inline Bytes unhex(const std::string &s) {
  Bytes b;
  if (s == "-") return b;
  for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(std::byte(std::stoi(s.substr(i, 2), nullptr, 16)));
  return b;
}
inline std::string jbytes(const void *d, size_t n) { W w; w.bytes(d, n); return w.s; }
template <class R> std::string jbytes(const R &b) { return jbytes(b.data(), b.size()); }

inline std::string current_case;
inline void on_alarm(int) {
  const char m[] = "DRIVER-HANG\n";
  (void)!write(2, m, sizeof m - 1);
  _exit(97);
}
// exact-size heap copy: any overrun is visible to ASan
struct Exact {
  std::unique_ptr<std::byte[]> p;
  size_t n;
  Exact(const std::byte *d, size_t n) : p(new std::byte[n]), n(n) { if (n) std::memcpy(p.get(), d, n); }
  std::span<const std::byte> span() const { return {p.get(), n}; }
};
} // namespace drv
