// Histories of operations on dynamic messages.  <id> <type name> <type id> <A> <B>|op|op..   (the first argument is the descriptor set)
#include "dyn.hpp"
using namespace drv;
using hp::dynamic_message_errc;
static std::string why;
static void bad(const std::string &s) { if (why.empty()) why = s; }
static std::string text(hp::message_value_cref m) { W w; dump(w, m); return w.s; }
static std::string val(hp::field_cref f) { W w; dval(w, f); return w.s; }
template <class M> M root(std::pmr::monotonic_buffer_resource &mr, const hp::message_descriptor_t &d) { return fac()->get_message(d.full_name(), mr).value(); }

// ------------------------------------------------------------------ schema positions
struct Pos { const hp::field_descriptor_t *d; int alt; };
// the fields of slot sl (1-based)
static std::vector<const hp::field_descriptor_t *> slot(const hp::message_descriptor_t &m, long sl) {
  auto fs = m.fields();
  long n = 0;
  std::vector<const hp::field_descriptor_t *> out;
  for (std::size_t i = 0; i < fs.size(); ++i) {
    bool more = i && in_oneof(fs[i]) && in_oneof(fs[i - 1]) && fs[i - 1].proto().oneof_index == fs[i].proto().oneof_index;
    if (!more) ++n;
    if (n == sl) out.push_back(&fs[i]);
  }
  return out;
}
static const hp::field_descriptor_t &fld(const hp::message_descriptor_t &m, const V &op) { return *slot(m, op[1].n).at(std::size_t(op[2].n - 1)); }

// ------------------------------------------------------------------ every read API agrees
template <class C, class F> void typed_read(const F &f, C c, const std::string &v, bool has) {
  auto &d = f.descriptor();
  if (c.has_value() != has) bad("typed has_value " + std::string(d.proto().name));
  if (bool(c) != has) bad("operator bool");
  if (&c.descriptor() != &d) bad("descriptor");
  if constexpr (requires { c.message_descriptor(); }) {
    bool threw = false;
    try { if (text(c.value()) != v) bad("message value"); } catch (const std::bad_optional_access &) { threw = true; }
    if (threw == has) bad("value() of an absent message");
    if (has && (text(*c) != v || &c->descriptor() != &c.message_descriptor())) bad("*message");
    auto g = f.template get<hp::message_value_cref>();
    if (g.has_value() != has || (has && text(*g) != v) || (!has && g.error() != dynamic_message_errc::no_such_value)) bad("get message");
    if (f.template get<double>().has_value()) bad("get<double> of a message");
  } else {
    W w;
    if constexpr (requires { c.enum_descriptor(); }) {
      auto n = std::int32_t(c.value());
      w.bytes(&n, 4);
      if (f.template get<hp::enum_number>().value() != n) bad("get<enum_number>");
      auto nm = f.template get<hp::enum_name>();
      auto want = c.enum_descriptor().name_of(n);
      if (nm.has_value() ? *nm != want : (!want.empty() || nm.error() != dynamic_message_errc::unknown_enum_value)) bad("get<enum_name>");
      if (c.value().name() != want) bad("enum name");
      if (!want.empty()) { auto *k = c.enum_descriptor().value_of(want); if (!k || c.enum_descriptor().name_of(*k) != want) bad("value_of"); }
    } else if constexpr (requires { c.value().data(); }) {
      auto x = c.value();
      w.bytes(x.data(), x.size());
      if constexpr (requires { c.size(); }) if (c.size() != x.size()) bad("size() " + std::string(d.proto().name));
      using T = std::conditional_t<std::is_same_v<decltype(x), std::string_view>, std::string_view, hp::bytes_view>;
      auto g = f.template get<T>().value();
      if (!std::ranges::equal(g, x)) bad("get<view>");
    } else {
      auto x = c.value();
      w.bytes(&x, sizeof x);
      auto g = f.template get<decltype(x)>().value();
      if (std::memcmp(&g, &x, sizeof x)) bad("get<scalar>");
    }
    if (w.s != v) bad("typed value " + std::string(d.proto().name));
    if (f.template get<hp::message_value_cref>().has_value()) bad("get message of a scalar");
    if constexpr (requires { c.is_present_or_explicit_default(); }) {
      if (c.is_present_or_explicit_default() && !has) bad("is_present_or_explicit_default");
      if (f.explicit_presence() && c.is_present_or_explicit_default() != has) bad("is_present_or_explicit_default");
    }
  }
}
template <class C> void rep_read(C c, const std::string &v) {
  W w;
  w.open();
  std::size_t n = 0;
  for (auto e : c) {
    ++n;
    using E = decltype(e);
    if constexpr (requires { e.descriptor().fields(); }) dump(w, hp::message_value_cref(e));
    else if constexpr (requires { e.number(); }) { std::int32_t k = e.number(); w.bytes(&k, 4); }
    else if constexpr (requires { e.data(); }) w.bytes(e.data(), e.size());
    else if constexpr (std::is_arithmetic_v<E>) w.bytes(&e, sizeof e);
    else { auto x = [&] { if constexpr (std::is_convertible_v<E, std::string_view>) return std::string_view(e); else return hp::bytes_view(e); }(); w.bytes(x.data(), x.size()); }
  }
  w.close();
  if (n != c.size() || w.s != v) bad("iteration " + w.s + " " + v);
  if constexpr (requires { c.empty(); }) if (c.empty() != (n == 0)) bad("empty");
  if constexpr (requires { c.capacity(); }) if (c.capacity() < n) bad("capacity");
  bool threw = false;
  try { (void)c.at(n); } catch (const std::out_of_range &) { threw = true; }
  if (!threw) bad("at(size())");
}
template <class M> void agree(const M &m, std::string &reads) {
  auto &md = m.descriptor();
  auto fs = md.fields();
  hp::message_value_cref cm = m;
  if (std::size_t(std::distance(fs.begin(), fs.end())) != std::size_t(std::ranges::distance(m.fields()))) bad("fields()");
  W w;
  w.open();
  for (std::size_t i = 0; i < fs.size(); ++i) {
    auto &d = fs[i];
    bool rep = d.is_repeated();
    bool oo = in_oneof(d);
    bool more = i && oo && in_oneof(fs[i - 1]) && fs[i - 1].proto().oneof_index == d.proto().oneof_index;
    auto f = m.field(d);
    bool has = f.has_value();
    if (m.field_descriptor_by_name(d.proto().name) != &d || m.field_descriptor_by_number(std::uint32_t(d.proto().number)) != &d ||
        m.field_descriptor_by_json_name(d.proto().json_name) != &d) bad("field lookup");
    auto same = [&](auto g) {
      if (g.has_value() != has || &g.descriptor() != &d || g.field_kind() != f.field_kind() || g.explicit_presence() != f.explicit_presence()) bad("another path to the field");
    };
    same(m.field_by_name(d.proto().name).value());
    same(m.field_by_number(std::uint32_t(d.proto().number)).value());
    same(m.fields()[i]);
    same(cm.field(d));
    same(cm.fields()[i]);
    auto cf = cm.field(d);
    if (!more) w.open();
    if (rep) {
      if (more) bad("repeated in oneof");
      W x;
      drep(x, cf);
      f.visit([&](auto c) { if constexpr (decltype(c)::is_repeated) { rep_read(c, x.s); if constexpr (requires { c.cref(); }) rep_read(c.cref(), x.s); } });
      if (cf.has_value() != (x.s != "[]")) bad("has_value of a repeated field");
    } else {
      std::string v = val(cf);
      f.visit([&](auto c) { if constexpr (!decltype(c)::is_repeated) { typed_read(f, c, v, has); if constexpr (requires { c.cref(); }) typed_read(cf, c.cref(), v, has); } });
      w.sep();
      if (d.message_field_type_descriptor()) w.s += "[]"; else w.s += v;
      if (!oo && cf.explicit_presence() && cf.active_oneof_index() != (has ? int(i) : -1)) bad("active_oneof_index " + std::to_string(cf.active_oneof_index()) + " field " + std::to_string(i));
      if (oo) {
        int act = -1;
        for (std::size_t j = 0; j < fs.size(); ++j) if (in_oneof(fs[j]) && fs[j].proto().oneof_index == d.proto().oneof_index && m.field(fs[j]).has_value()) { if (act >= 0) bad("two active members"); act = int(j); }
        if (cf.active_oneof_index() != act) bad("active_oneof_index " + std::to_string(cf.active_oneof_index()) + " expected " + std::to_string(act));
        auto *od = m.oneof_descriptor(md.proto().oneof_decl[std::size_t(*d.proto().oneof_index)].name);
        if (!od || m.has_oneof(*od) != (act >= 0) || cm.has_oneof(*od) != (act >= 0)) bad("has_oneof");
      }
    }
    bool last = !(i + 1 < fs.size() && oo && in_oneof(fs[i + 1]) && fs[i + 1].proto().oneof_index == d.proto().oneof_index);
    if (last) w.close();
  }
  w.close();
  if (m.field_by_name("no such field").has_value() || m.field_by_number(500000003).has_value() || m.oneof_descriptor("nope")) bad("unknown field found");
  reads = w.s;
}

// ------------------------------------------------------------------ paths
static hp::message_value_mref go(hp::message_value_mref m, const V &path) {
  for (auto &st : path.k) {
    auto &d = *slot(m.descriptor(), st[0].n).at(std::size_t(st[1].n - 1));
    auto f = m.field(d);
    if (d.is_repeated()) {
      auto r = *f.to<hp::repeated_message_field_mref>();
      m = std::size_t(st[2].n) <= r.size() ? (st[2].n % 2 ? r[std::size_t(st[2].n - 1)] : r.at(std::size_t(st[2].n - 1))) : r.emplace_back();
    } else {
      auto r = *f.to<hp::message_field_mref>();
      m = r.has_value() ? r.value() : r.emplace();
    }
  }
  return m;
}
static hp::message_value_cref look(std::pmr::monotonic_buffer_resource &mr, hp::message_value_cref m, const V &path) {
  for (auto &st : path.k) {
    auto &d = *slot(m.descriptor(), st[0].n).at(std::size_t(st[1].n - 1));
    auto f = m.field(d);
    auto fresh = [&]() -> hp::message_value_cref { return root<hp::message_value_mref>(mr, *d.message_field_type_descriptor()); };
    if (d.is_repeated()) {
      auto r = *f.to<hp::repeated_message_field_cref>();
      m = std::size_t(st[2].n) <= r.size() ? r[std::size_t(st[2].n - 1)] : fresh();
    } else {
      auto r = *f.to<hp::message_field_cref>();
      m = r.has_value() ? *r : fresh();
    }
  }
  return m;
}
// ------------------------------------------------------------------ operations
static int code(const std::expected<void, dynamic_message_errc> &e) { return e.has_value() ? 0 : int(e.error()); }
static int code(const std::expected<hp::message_value_mref, dynamic_message_errc> &e) { return e.has_value() ? 0 : int(e.error()); }
template <class T> int put(hp::message_value_mref m, hp::field_mref f, T v, long how) {
  auto &p = f.descriptor().proto();
  switch (how) {
  case 1: return code(f.set(v));
  case 2: return code(m.set_field_by_name(p.name, v));
  case 3: return code(m.set_field_by_number(std::uint32_t(p.number), v));
  case 5: return code(f.adopt(v));
  case 10: {
    auto e = hp::expected_message_mref{m}.set_field_by_name(p.name, v).set_field_by_number(std::uint32_t(p.number), v).modify_field_by_name(p.name, [](auto) -> std::expected<void, dynamic_message_errc> { return {}; });
    if (e.has_value() != e.done().has_value()) bad("done()");
    return code(e.done());
  }
  }
  return -1;
}
static int set(DynArena &ar, hp::message_value_mref m, hp::field_mref f, const V &v, long how) {
  auto &d = f.descriptor();
  int r = 0;
  f.visit([&](auto c) {
    using C = decltype(c);
    if constexpr (!C::is_repeated && !std::is_same_v<C, hp::message_field_mref>) {
      if constexpr (std::is_same_v<C, hp::enum_field_mref>) {
        hp::enum_number n{sc<std::int32_t>(v)};
        hp::enum_name nm{d.enum_field_type_descriptor()->name_of(n.value)};
        if (how == 0) c.set(n);
        else if (how == 7) r = code(c.set(nm));
        else if (how == 8) r = put(m, f, nm, n.value % 2 ? 1 : 2);
        else if (how == 9) c.emplace().set(n.value);
        else if (how == 6) r = code(m.modify_field_by_name(d.proto().name, [&](hp::enum_field_mref q) -> std::expected<void, dynamic_message_errc> { q.set(n); return {}; }));
        else r = put(m, f, n, how);
      } else if constexpr (std::is_same_v<C, hp::string_field_mref>) {
        ar.s.push_back(str(v));
        std::string tmp = ar.s.back();
        if (how == 0) c.set(tmp);
        else if (how == 4) c.adopt(ar.s.back());
        else if (how == 5) r = put(m, f, std::string_view(ar.s.back()), how);
        else if (how == 6) r = code(m.modify_field_by_number(std::uint32_t(d.proto().number), [&](hp::string_field_mref q) -> std::expected<void, dynamic_message_errc> { q.set(tmp); return {}; }));
        else if (how == 1) r = put(m, f, tmp, how);
        else r = put(m, f, std::string_view(tmp), how);
        tmp.assign(tmp.size(), '#');
      } else if constexpr (std::is_same_v<C, hp::bytes_field_mref>) {
        ar.s.push_back(str(v));
        auto sp = hp::bytes_view(reinterpret_cast<const std::byte *>(ar.s.back().data()), ar.s.back().size());
        std::vector<std::byte> tmp(sp.begin(), sp.end());
        if (how == 0) c.set(tmp);
        else if (how == 4) c.adopt(sp);
        else if (how == 5) r = put(m, f, sp, how);
        else if (how == 6) r = code(m.modify_field_by_name(d.proto().name, [&](hp::bytes_field_mref q) -> std::expected<void, dynamic_message_errc> { q.set(tmp); return {}; }));
        else r = put(m, f, tmp, how);
        std::ranges::fill(tmp, std::byte{0x23});
      } else {
        using T = typename C::value_type;
        T x = sc<T>(v);
        if (how == 0) c.set(x);
        else if (how == 9) c.emplace() = x;
        else if (how == 6) r = code(m.modify_field_by_name(d.proto().name, [&](C q) -> std::expected<void, dynamic_message_errc> { q.set(x); return {}; }));
        else r = put(m, f, x, how);
      }
    }
  });
  return r;
}
template <class C> struct rep_elem;
static int rset(DynArena &ar, hp::message_value_mref m, hp::field_mref f, const V &vs, long how) {
  auto &d = f.descriptor();
  int r = 0;
  f.visit([&](auto c) {
    using C = decltype(c);
    if constexpr (C::is_repeated && !std::is_same_v<C, hp::repeated_message_field_mref>) {
      auto all = [&](auto &q) {      // q outlives the message
        using Q = std::decay_t<decltype(q)>;
        using T = typename Q::value_type;
        Q tmp = q;
        if (how == 0) c.set(tmp);
        else if (how == 3) c.adopt(std::span<T>(q));
        else if (how == 4) r = code(f.adopt(std::span<T>(q)));
        else if (how == 5) c.set(std::span<const T>(tmp));
        else r = how == 1 ? code(f.set(tmp)) : how == 2 ? code(m.set_field_by_name(d.proto().name, tmp)) : code(m.set_field_by_number(std::uint32_t(d.proto().number), tmp));
        for (auto &x : tmp) x = T{};
      };
      auto make = [&]<class T>(T *) -> std::vector<T> & { auto p = std::make_shared<std::vector<T>>(); ar.v.push_back(p); return *p; };
      if constexpr (std::is_same_v<C, hp::repeated_enum_field_mref>) {
        auto &q = make((std::int32_t *)nullptr);
        for (auto &x : vs.k) q.push_back(sc<std::int32_t>(x));
        std::vector<std::string_view> names;
        for (auto x : q) names.push_back(d.enum_field_type_descriptor()->name_of(x));
        auto tmp = q;
        if (how == 0) c.set(tmp);
        else if (how == 3) c.adopt(std::span(q));
        else if (how == 4) r = code(f.adopt(std::span(q)));
        else if (how == 6) r = q.size() % 2 ? code(c.set(names)) : code(f.set(hp::enum_names_range{names}));
        else if (how == 5) c.set(hp::enum_numbers_range{tmp});
        else r = how == 1 ? code(f.set(hp::enum_numbers_range{tmp})) : code(m.set_field_by_name(d.proto().name, hp::enum_numbers_range{tmp}));
        tmp.assign(tmp.size(), 99);
      } else if constexpr (std::is_same_v<C, hp::repeated_string_field_mref>) {
        auto &q = make((std::string_view *)nullptr);
        for (auto &x : vs.k) { ar.s.push_back(str(x)); q.push_back(ar.s.back()); }
        all(q);
      } else if constexpr (std::is_same_v<C, hp::repeated_bytes_field_mref>) {
        auto &q = make((hp::bytes_view *)nullptr);
        for (auto &x : vs.k) { ar.s.push_back(str(x)); q.push_back(hp::bytes_view(reinterpret_cast<const std::byte *>(ar.s.back().data()), ar.s.back().size())); }
        all(q);
      } else {
        using T = typename C::value_type;
        if constexpr (std::is_same_v<T, bool>) {
          auto p = std::shared_ptr<bool[]>(new bool[vs.size() + 1]);
          ar.v.push_back(std::shared_ptr<void>(p, p.get()));
          std::span<bool> q(p.get(), vs.size());
          for (std::size_t i = 0; i < vs.size(); ++i) q[i] = vs[i][0].n != 0;
          if (how == 0 || how == 5) c.set(q);
          else if (how == 3) c.adopt(q);
          else if (how == 4) r = code(f.adopt(q));
          else r = how == 1 ? code(f.set(q)) : code(m.set_field_by_name(d.proto().name, q));
        } else {
          auto &q = make((T *)nullptr);
          for (auto &x : vs.k) q.push_back(sc<T>(x));
          all(q);
        }
      }
    }
  });
  return r;
}
template <class C> static void fill(C c) { // something
  if constexpr (std::is_same_v<C, hp::repeated_message_field_mref>) (void)c.emplace_back();
  else if constexpr (C::is_repeated) c.resize(2);
  else if constexpr (std::is_same_v<C, hp::message_field_mref>) (void)c.emplace();
  else if constexpr (std::is_same_v<C, hp::enum_field_mref>) c.set(hp::enum_number{1});
  else if constexpr (std::is_same_v<C, hp::string_field_mref>) c.set(std::string_view("full"));
  else if constexpr (std::is_same_v<C, hp::bytes_field_mref>) c.set(std::as_bytes(std::span("full", 4)));
  else c.set(typename C::value_type(1));
}
static int push(hp::field_mref f, const V &v, long how) {
  int r = 0;
  f.visit([&](auto c) {
    using C = decltype(c);
    if constexpr (C::is_repeated && !std::is_same_v<C, hp::repeated_message_field_mref>) {
      if constexpr (std::is_same_v<C, hp::repeated_enum_field_mref>) {
        auto n = sc<std::int32_t>(v);
        if (how) r = code(c.push_back(hp::enum_name{c.enum_descriptor().name_of(n)}));
        else c.push_back(hp::enum_number{n});
      } else if constexpr (std::is_same_v<C, hp::repeated_string_field_mref>) { auto s = str(v); c.push_back(s); s.assign(s.size(), '#'); }
      else if constexpr (std::is_same_v<C, hp::repeated_bytes_field_mref>) { auto s = str(v); c.push_back(hp::bytes_view(reinterpret_cast<const std::byte *>(s.data()), s.size())); s.assign(s.size(), '#'); }
      else c.push_back(sc<typename C::value_type>(v));
    }
  });
  return r;
}
static int elem(hp::field_mref f, const V &a, long how) {
  int r = 0;
  auto i = std::size_t(a[0].n - 1);
  f.visit([&](auto c) {
    using C = decltype(c);
    if constexpr (C::is_repeated && !std::is_same_v<C, hp::repeated_message_field_mref>) {
      try {
        auto &&e = (how == 0 && i < c.size()) ? c[i] : c.at(i);
        if constexpr (std::is_same_v<C, hp::repeated_enum_field_mref>) e.set(sc<std::int32_t>(a[1]));
        else if constexpr (std::is_same_v<C, hp::repeated_string_field_mref>) { auto s = str(a[1]); e.set(s); s.assign(s.size(), '#'); }
        else if constexpr (std::is_same_v<C, hp::repeated_bytes_field_mref>) { auto s = str(a[1]); e.set(hp::bytes_view(reinterpret_cast<const std::byte *>(s.data()), s.size())); s.assign(s.size(), '#'); }
        else e = sc<typename C::value_type>(a[1]);
      } catch (const std::out_of_range &) { r = 100; }
    }
  });
  return r;
}
static int wrong(std::pmr::monotonic_buffer_resource &mr, hp::message_value_mref m, hp::field_mref f, long how) {
  auto &d = f.descriptor();
  bool dbl = d.proto().type == google::protobuf::FieldDescriptorProto<>::Type::TYPE_DOUBLE;
  auto is = [](auto r, dynamic_message_errc e) { if (r.has_value()) bad("no error"); else if (r.error() != e) bad("another error"); return r.has_value() ? 0 : int(r.error()); };
  switch (how) {
  case 0: return dbl ? code(f.set(std::int32_t(5))) : code(m.set_field_by_name(d.proto().name, 5.0));
  case 1: return code(m.set_field_by_name("no such field", 1));
  case 6: return code(m.set_field_by_number(536870910, std::int32_t(1)));
  case 2: {
    auto e = f.to<hp::enum_field_mref>();
    int a = code(e->set(hp::enum_name{"NOPE"})), b = code(f.set(hp::enum_name{"NOPE"}));
    return a == b ? a : -5;
  }
  case 3: return code(f.adopt(5.0));
  case 4: {
    auto *sub = d.message_field_type_descriptor();
    auto o = fac()->get_message(sub->full_name() == "vt.L3" ? "vt.L2" : "vt.L3", mr).value();
    int a = code(f.set(o.cref())), b = code(f.to<hp::message_field_mref>()->set(o));
    return a == b ? a : -5;
  }
  case 5: {
    int a = d.message_field_type_descriptor() && !d.is_repeated() ? is(m.typed_ref_by_name<hp::int32_field_mref>(d.proto().name), dynamic_message_errc::invalid_field_type)
                                                              : is(m.typed_ref_by_name<hp::message_field_mref>(d.proto().name), dynamic_message_errc::invalid_field_type);
    int b = d.is_repeated() ? code(m.modify_field_by_name(d.proto().name, [](hp::string_field_mref) -> std::expected<void, dynamic_message_errc> { return {}; }))
                            : code(m.modify_field_by_name(d.proto().name, [](hp::repeated_string_field_mref) -> std::expected<void, dynamic_message_errc> { return {}; }));
    return a == b ? a : -5;
  }
  }
  return -6;
}
static const hp::oneof_descriptor_t &oneof_of(hp::message_value_cref m, const hp::field_descriptor_t &d) {
  return *m.oneof_descriptor(m.descriptor().proto().oneof_decl[std::size_t(*d.proto().oneof_index)].name);
}
static int run(std::pmr::monotonic_buffer_resource &mr, DynArena &ar, const std::string &name, const V &op, hp::message_value_mref a, hp::message_value_cref b) {
  hp::message_value_mref m = go(a, op[0]);
  long how = op[4].n;
  auto &arg = op[3];
  if (name == "resetall") { m.reset(); return 0; }
  if (name == "clone") { m.clone_from(look(mr, b, arg)); return 0; }
  auto &d = fld(m.descriptor(), op);
  auto f = how % 2 ? m.field(d) : m.field_by_number(std::uint32_t(d.proto().number)).value();
  if (name == "set") return set(ar, m, f, arg, how);
  if (name == "bad") return wrong(mr, m, f, how);
  if (name == "def") { f.visit([](auto c) { if constexpr (requires { c.set_as_default(); }) c.set_as_default(); }); return 0; }
  if (name == "emp") {
    auto c = *f.to<hp::message_field_mref>();
    if (how == 0) { auto x = c.emplace(); if (&x.descriptor() != d.message_field_type_descriptor()) bad("emplaced type"); }
    else if (how == 1) c.set_as_default();
    else return code(m.modify_field_by_name(d.proto().name, [](hp::message_field_mref q) -> std::expected<void, dynamic_message_errc> { q.emplace(); return {}; }));
    return 0;
  }
  if (name == "reset" || name == "rclear") {
    if (how == 0) f.visit([&](auto c) { if constexpr (requires { c.clear(); }) c.clear(); else c.reset(); });
    else if (how == 1) f.reset();
    else if (how == 2) m.clear_field(d);
    else if (name == "rclear") f.visit([](auto c) { if constexpr (requires { c.reset(); }) c.reset(); else c.clear(); });
    else f.set_null();
    return 0;
  }
  if (name == "clear1") { m.clear_field(oneof_of(m, d)); return 0; }
  if (name == "setm") {
    auto s = look(mr, b, arg);
    return how == 0 ? code(f.to<hp::message_field_mref>()->set(s)) : how == 1 ? code(f.set(s)) : code(m.set_field_by_name(d.proto().name, s));
  }
  if (name == "clonef") {
    auto s = look(mr, b, arg).field(d);
    if (how == 0) f.clone_from(s);
    else f.visit([&](auto c) { using C = decltype(c); if constexpr (requires { typename C::cref_type; }) c.clone_from(*s.template to<typename C::cref_type>()); else f.clone_from(s); });
    return 0;
  }
  if (name == "alias") {
    for (int filled = 0; filled < 2; ++filled) { // onto an empty field and onto one that holds something
      auto x = root<hp::message_value_mref>(mr, m.descriptor());
      if (filled) x.field(d).visit([](auto c) { fill(c); });
      if (how == 0) { x.alias_from(m); if (text(x) != text(m)) bad("aliased message"); continue; }
      auto g = x.field(d);
      if (how == 1) g.alias_from(f);
      else g.visit([&](auto c) { using C = decltype(c); if constexpr (requires { c.alias_from(*f.template to<C>()); }) c.alias_from(*f.template to<C>()); else g.alias_from(f); });
      if (d.is_repeated()) { W p, q; drep(p, x.field(d).cref()); drep(q, f.cref()); if (p.s != q.s) bad("aliased field"); }
      else if (x.field(d).has_value() != f.has_value() || val(x.field(d)) != val(f)) bad("aliased field");
      for (auto &o : x.descriptor().fields()) if (&o != &d && !o.is_repeated() && o.resolved_info().explicit_presence() && x.field(o).has_value()) bad("aliasing touched another field");
    }
    return 0;
  }
  if (name == "push") return push(f, arg, how);
  if (name == "pushm") { auto e = f.to<hp::repeated_message_field_mref>()->emplace_back(); if (&e.descriptor() != d.message_field_type_descriptor()) bad("element type"); return 0; }
  if (name == "resize") { f.visit([&](auto c) { if constexpr (requires { c.resize(1); }) c.resize(std::size_t(arg.n)); }); return 0; }
  if (name == "reserve") {
    f.visit([&](auto c) {
      if constexpr (requires { c.reserve(1); }) {
        c.reserve(std::size_t(arg.n));
        if constexpr (requires { c.capacity(); }) if (c.capacity() < std::size_t(arg.n)) bad("reserve");
      }
    });
    return 0;
  }
  if (name == "rset") return rset(ar, m, f, arg, how);
  if (name == "rsetm") {
    std::vector<hp::message_value_cref> v;
    auto s = *look(mr, b, arg).field(d).to<hp::repeated_message_field_cref>();
    for (std::size_t i = 0; i < s.size(); ++i) v.push_back(s[i]);
    return how == 0 ? code(f.to<hp::repeated_message_field_mref>()->set(v)) : how == 1 ? code(f.set(v)) : code(m.set_field_by_name(d.proto().name, v));
  }
  if (name == "relem") return elem(f, arg, how);
  return -9;
}
int main(int, char **argv) {
  signal(SIGALRM, on_alarm);
  maps_as_entries = true;
  std::ifstream in(argv[1], std::ios::binary);
  std::string set((std::istreambuf_iterator<char>(in)), {});
  auto fr = hp::dynamic_message_factory::create(set);
  if (!fr.has_value()) { std::cerr << "the descriptor set was refused: " << int(fr.error()) << "\n"; return 3; }
  fac() = &*fr;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::stringstream ls(line);
    std::string head, id, ty, tid, A, B, o;
    std::getline(ls, head, '|');
    std::stringstream hs(head);
    hs >> id >> ty >> tid >> A >> B;
    if (id.empty()) continue;
    current_case = line;
    std::cerr << "@" << id << "\n";
    alarm(20);
    std::pmr::monotonic_buffer_resource mr;
    DynArena ar;
    auto a = fac()->get_message("vt." + ty, mr).value();
    auto b = fac()->get_message("vt." + ty, mr).value();
    build(ar, parseV(A), a);
    build(ar, parseV(B), b);
    std::string btext = text(b);
    std::string out = "{\"id\":" + id + ",\"ev\":[";
    bool first = true;
    why.clear();
    if (text(a) != A) bad("building " + A);
    while (std::getline(ls, o, '|')) {
      auto sp = o.find(' ');
      int ret = run(mr, ar, o.substr(0, sp), parseV(o.substr(sp + 1)), a, b.cref());
      std::string r1, r2, p1 = text(a);
      agree(a, r1);
      agree(a.cref(), r2);
      if (r1 != r2) bad("mutable and const reads");
      if (text(a) != p1) bad("reading changed the message");
      if (text(b) != btext) bad("the other message changed");
      out += std::string(first ? "" : ",") + "{\"ret\":" + std::to_string(ret) + ",\"post\":[" + p1 + "," + r1 + "],\"res\":" + (why.empty() ? "1" : "0") + ",\"why\":\"" + why + "\"}";
      first = false;
    }
    std::cout << out << "]}\n";
    std::cout.flush();
    alarm(0);
  }
}
