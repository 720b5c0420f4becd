// Abstract values of dynamic messages: one slot per field or oneof in descriptor order (required fields as optional ones)
#pragma once
#include <hpp_proto/dynamic_message/binpb.hpp>
#include <hpp_proto/dynamic_message/factory.hpp>
#include "codec.hpp"
namespace drv {
namespace hp = hpp_proto;
inline hp::dynamic_message_factory *&fac() { static hp::dynamic_message_factory *f; return f; }
inline bool in_oneof(const hp::field_descriptor_t &d) { return d.proto().oneof_index.has_value() && !d.proto().proto3_optional; }
inline bool maps_as_entries = false;   // a map field is shown as the repeated entry messages it is made of
inline bool is_map(const hp::field_descriptor_t &d) {
  if (maps_as_entries) return false;
  auto *m = d.message_field_type_descriptor();
  return m && d.is_repeated() && m->is_map_entry();
}
void dump(W &w, hp::message_value_cref m);
inline void dump(W &w, const hp::message_value_mref &m) { dump(w, m.cref()); }
// the value of a field whatever its presence
inline void dval(W &w, hp::field_cref f) {
  f.visit([&](auto c) {
    using C = decltype(c);
    if constexpr (C::is_repeated) {}
    else if constexpr (std::is_same_v<C, hp::message_field_cref>) {
      if (c.has_value()) dump(w, *c);
      else {
        std::pmr::monotonic_buffer_resource mr;
        dump(w, fac()->get_message(c.message_descriptor().full_name(), mr).value().cref());
      }
    } else if constexpr (std::is_same_v<C, hp::enum_field_cref>) {
      std::int32_t n = c.value().number();
      w.bytes(&n, 4);
    } else if constexpr (std::is_same_v<C, hp::string_field_cref> || std::is_same_v<C, hp::bytes_field_cref>) {
      auto v = c.value();
      w.bytes(v.data(), v.size());
    } else {
      auto v = c.value();
      w.bytes(&v, sizeof v);
    }
  });
}
inline void drep(W &w, hp::field_cref f) {
  w.open();
  f.visit([&](auto c) {
    using C = decltype(c);
    if constexpr (C::is_repeated) {
      for (std::size_t i = 0; i < c.size(); ++i) {
        auto e = c[i];
        if constexpr (std::is_same_v<C, hp::repeated_message_field_cref>) dump(w, e);
        else if constexpr (std::is_same_v<C, hp::repeated_enum_field_cref>) { std::int32_t n = e.number(); w.bytes(&n, 4); }
        else if constexpr (requires { e.data(); }) w.bytes(e.data(), e.size());
        else w.bytes(&e, sizeof e);
      }
    }
  });
  w.close();
}
inline void dmap(W &w, hp::field_cref f) {
  std::vector<std::tuple<std::vector<long>, std::string, std::string>> es;
  auto c = *f.to<hp::repeated_message_field_cref>();
  for (std::size_t i = 0; i < c.size(); ++i) {
    auto e = c[i];
    W a, b;
    dval(a, e.fields()[0]);
    dval(b, e.fields()[1]);
    std::vector<long> k;
    for (auto &x : parseV(a.s).k) k.push_back(x.n);
    auto it = std::find_if(es.begin(), es.end(), [&](auto &q) { return std::get<0>(q) == k; });
    if (!w.raw && it != es.end()) std::get<2>(*it) = b.s;
    else es.emplace_back(k, a.s, b.s);
  }
  if (!w.raw) std::stable_sort(es.begin(), es.end(), [](auto &a, auto &b) { return std::get<0>(a) < std::get<0>(b); });
  w.open();
  for (auto &[k, a, b] : es) { w.open(); w.sep(); w.s += a; w.sep(); w.s += b; w.close(); }
  w.close();
}
inline void dump(W &w, hp::message_value_cref m) {
  w.open();
  auto fs = m.descriptor().fields();
  for (std::size_t i = 0; i < fs.size(); ++i) {
    auto &d = fs[i];
    auto f = m.field(d);
    if (in_oneof(d)) {
      if (i && in_oneof(fs[i - 1]) && fs[i - 1].proto().oneof_index == d.proto().oneof_index) continue;
      w.open();
      int alt = 0;
      bool any = false;
      for (std::size_t j = i; j < fs.size() && in_oneof(fs[j]) && fs[j].proto().oneof_index == d.proto().oneof_index; ++j) {
        ++alt;
        if (m.field(fs[j]).has_value()) { any = true; w.num(alt); dval(w, m.field(fs[j])); }
      }
      auto *od = m.oneof_descriptor(m.descriptor().proto().oneof_decl[std::size_t(*d.proto().oneof_index)].name);
      if (!od || m.has_oneof(*od) != any) w.num(-1);
      w.close();
    } else if (is_map(d)) dmap(w, f);
    else if (d.is_repeated()) drep(w, f);
    else if (d.resolved_info().explicit_presence()) {
      w.open();
      if (f.has_value()) dval(w, f);
      w.close();
    } else dval(w, f);
  }
  w.open();
  w.close();
  w.close();
}
// ------------------------------------------------------------------ building
inline std::string str(const V &v) { std::string s; for (auto &x : v.k) s += char(x.n); return s; }
template <class T> T sc(const V &v) { unsigned char b[8]{}; for (size_t i = 0; i < v.size(); ++i) b[i] = (unsigned char)v[i].n; T t; std::memcpy(&t, b, sizeof t); return t; }
struct DynArena { std::deque<std::string> s; std::deque<std::shared_ptr<void>> v; unsigned n = 0; };
void build(DynArena &ar, const V &v, hp::message_value_mref m);
inline void bval(DynArena &ar, const V &v, hp::field_mref f) {
  f.visit([&](auto c) {
    using C = decltype(c);
    unsigned how = ar.n++;
    if constexpr (C::is_repeated) {}
    else if constexpr (std::is_same_v<C, hp::message_field_mref>) build(ar, v, c.emplace());
    else if constexpr (std::is_same_v<C, hp::enum_field_mref>) c.set(hp::enum_number{sc<std::int32_t>(v)});
    else if constexpr (std::is_same_v<C, hp::string_field_mref>) { ar.s.push_back(str(v)); if (how % 2) c.adopt(ar.s.back()); else c.set(ar.s.back()); }
    else if constexpr (std::is_same_v<C, hp::bytes_field_mref>) {
      ar.s.push_back(str(v));
      auto sp = hp::bytes_view(reinterpret_cast<const std::byte *>(ar.s.back().data()), ar.s.back().size());
      if (how % 2) c.adopt(sp); else c.set(sp);
    } else c.set(sc<typename C::value_type>(v));
  });
}
inline void brep(DynArena &ar, const V &v, hp::field_mref f) {
  f.visit([&](auto c) {
    using C = decltype(c);
    if constexpr (C::is_repeated) {
      if constexpr (std::is_same_v<C, hp::repeated_message_field_mref>) { for (auto &x : v.k) build(ar, x, c.emplace_back()); }
      else {
        c.resize(v.size());
        for (std::size_t i = 0; i < v.size(); ++i) {
          if constexpr (std::is_same_v<C, hp::repeated_enum_field_mref>) c[i].set(sc<std::int32_t>(v[i]));
          else if constexpr (std::is_same_v<C, hp::repeated_string_field_mref>) c[i].set(str(v[i]));
          else if constexpr (std::is_same_v<C, hp::repeated_bytes_field_mref>) { auto s = str(v[i]); c[i].set(hp::bytes_view(reinterpret_cast<const std::byte *>(s.data()), s.size())); }
          else c[i] = sc<typename C::value_type>(v[i]);
        }
      }
    }
  });
}
inline void build(DynArena &ar, const V &v, hp::message_value_mref m) {
  auto fs = m.descriptor().fields();
  std::size_t slot = 0;
  for (std::size_t i = 0; i < fs.size(); ++i) {
    auto &d = fs[i];
    if (in_oneof(d)) {
      if (i && in_oneof(fs[i - 1]) && fs[i - 1].proto().oneof_index == d.proto().oneof_index) continue;
      auto &s = v[slot++];
      if (s.size()) bval(ar, s[1], m.field(fs[i + std::size_t(s[0].n) - 1]));
    } else if (is_map(d)) {
      auto c = *m.field(d).to<hp::repeated_message_field_mref>();
      for (auto &e : v[slot++].k) {
        auto x = c.emplace_back();
        bval(ar, e[0], x.fields()[0]);
        bval(ar, e[1], x.fields()[1]);
      }
    } else if (d.is_repeated()) brep(ar, v[slot++], m.field(d));
    else if (d.resolved_info().explicit_presence()) { auto &s = v[slot++]; if (s.size()) bval(ar, s[0], m.field(d)); }
    else bval(ar, v[slot++], m.field(d));
  }
}
} // namespace drv
