// Replays histories on three holders:  <id> <type> <init> op;op;...   ->   {"id":..,"ev":[{"ret":..,"post":[..],"res":..},..]}
#include <hpp_proto/field_types.hpp>
#include <hpp_proto/indirect.hpp>
#include <hpp_proto/indirect_view.hpp>
#include <hpp_proto/optional_indirect.hpp>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory_resource>
#include <sstream>
#include <string>
#include <unistd.h>
using Str = std::string;
using Chain = std::vector<int>;
struct Counting : std::pmr::memory_resource {
  long out = 0;
  std::pmr::memory_resource *up = std::pmr::new_delete_resource();
  void *do_allocate(std::size_t n, std::size_t a) override { ++out; return up->allocate(n, a); }
  void do_deallocate(void *p, std::size_t n, std::size_t a) override { --out; up->deallocate(p, n, a); }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
static Counting dflt, mr[2];
struct Boom {};
struct Cnt { // an instance that knows where it lives
  static inline long live = 0, fuse = -1;
  const Cnt *self = this;
  Cnt() { ++live; }
  Cnt(const Cnt &o) { o.ok(); if (fuse >= 0 && fuse-- == 0) throw Boom{}; ++live; }
  Cnt(Cnt &&o) noexcept { o.ok(); ++live; }
  Cnt &operator=(const Cnt &o) { o.ok(); ok(); if (fuse >= 0 && fuse-- == 0) throw Boom{}; return *this; }
  Cnt &operator=(Cnt &&o) noexcept { o.ok(); ok(); return *this; }
  ~Cnt() { ok(); self = nullptr; --live; }
  void ok() const { if (self != this) { std::fprintf(stderr, "an object is used outside its lifetime\n"); std::abort(); } }
  bool operator==(const Cnt &) const { return true; }
  auto operator<=>(const Cnt &) const { return std::strong_ordering::equal; }
};
static Str text(int v) { return v == 0 ? Str() : "a text long enough to need memory of its own " + std::to_string(v); }
template <template <class> class A> struct Node {
  Cnt c;
  int v = 0;
  hpp_proto::optional_indirect<Node, A<Node>> next;
  Str s;
  Node() = default;
  Node(int x) : v(x), s(text(x)) {}
  explicit Node(Boom) { throw Boom{}; }
  bool operator==(const Node &) const = default;
  auto operator<=>(const Node &o) const {
    if (auto r = v <=> o.v; r != 0) return r;
    if (next.has_value() != o.next.has_value()) return next.has_value() <=> o.next.has_value();
    return next.has_value() ? *next <=> *o.next : std::strong_ordering::equal;
  }
  static Node make(const Chain &c, std::size_t i = 0) {
    Node n(c[i]);
    if (i + 1 < c.size()) n.next = make(c, i + 1);
    return n;
  }
  void read(Chain &r) const { c.ok(); r.push_back(s == text(v) ? v : -5); if (next.has_value()) next->read(r); }
};
template <class H> struct Alloc {
  static constexpr bool pmr = requires { std::declval<H>().get_allocator().resource(); };
  static auto get(int i) {
    if constexpr (pmr) return typename H::allocator_type(&mr[i == 2]);
    else if constexpr (requires { typename H::allocator_type; }) return typename H::allocator_type();
    else return 0;
  }
};
using Val = std::vector<int>; // {-9}: unspecified
static const Val U{-9};
template <class H> struct Base {
  static constexpr bool SelfMoveLoses = !Alloc<H>::pmr && !requires { typename H::allocator_type; } && requires { H::default_value(); };
  std::optional<H> x[3];
  bool u[3] = {false, false, false};
  H &at(int i) { return *x[i]; }
  const H &cat(int i) const { return *x[i]; }
  void common(const Str &a, int i, int j, int f, Val &ret, bool &done) {
    done = true;
    if (a == "copy") { at(i) = cat(j); u[i] = u[j]; }
    else if (a == "move") { at(i) = std::move(at(j)); if (i != j) { u[i] = u[j]; u[j] = true; } else if (SelfMoveLoses) u[i] = true; }
    else if (a == "swap") { at(i).swap(at(j)); std::swap(u[i], u[j]); }
    else if (a == "cctor" || a == "mctor") {
      bool m = a == "mctor";
      x[i].reset();
      if constexpr (requires { typename H::allocator_type; }) {
        if (f == 1 && !m) x[i].emplace(std::allocator_arg, Alloc<H>::get(i), cat(j));
        else if (f == 1) x[i].emplace(std::allocator_arg, Alloc<H>::get(i), std::move(at(j)));
        else if (m) x[i].emplace(std::move(at(j)));
        else x[i].emplace(cat(j));
      } else { if (m) x[i].emplace(std::move(at(j))); else x[i].emplace(cat(j)); }
      u[i] = u[j];
      if (m) u[j] = true;
    } else if (a == "eq") ret = {cat(i) == cat(j)};
    else done = false;
  }
};
template <class H, bool Opt> struct Chains : Base<H> { // optional_indirect, indirect
  using Base<H>::x; using Base<H>::u; using Base<H>::at; using Base<H>::cat;
  using N = H::value_type;
  using OI = decltype(N::next);
  static constexpr bool isI = !Opt;
  void init(int i, const Val &v) {
    if constexpr (Alloc<H>::pmr) x[i].emplace(std::allocator_arg, Alloc<H>::get(i)); else x[i].emplace();
    u[i] = v == U;
    if (v == U) { at(i) = N(1); H t(std::move(at(i))); }
    else if (!v.empty()) at(i) = N::make(v);
  }
  Val state(int i) const {
    if (u[i]) return U;
    if constexpr (Opt) if (!cat(i).has_value()) return {};
    Val r;
    cat(i)->read(r);
    return r;
  }
  bool enabled(const Str &a, int i, int j, int n) {
    auto fix = [&](int k) { return !u[k]; };
    auto len = [&](int k) { return (int)state(k).size(); };
    if ((a == "get" || a == "has" || a == "mon" || a == "orelse" || a == "deep" || a == "push" || a == "pop" || a == "popc" || a == "eqv" || a == "eqn") && !fix(i)) return false;
    if ((a == "eq" || a == "cmp" || a == "splice") && !(fix(i) && fix(j))) return false;
    if ((a == "pop" || a == "popc") && len(i) == 0) return false;
    if (a == "splice" && (i == j || len(i) == 0)) return false;
    if (a == "deep" && n > len(i)) return false;
    return true;
  }
  long nodes() const { long r = 0; for (int k = 0; k < 3; ++k) { if (u[k]) return -1; r += (long)state(k).size(); } return r; }
  static N &tail(N &n) { return n.next.has_value() ? tail(*n.next) : n; }
  void op(const Str &a, int i, int n2, int n3, int n4, Val &ret) {
    bool done;
    int j = n2 - 1;
    bool two = a == "copy" || a == "move" || a == "swap" || a == "cctor" || a == "mctor" || a == "eq";
    if (two) { this->common(a, i, j, n3, ret, done); return; }
    if (a == "set") { if (n2 % 2 || Opt) at(i) = N(n2); else { const N n(n2); if constexpr (isI) at(i) = n; else at(i) = N(n); } u[i] = false; }
    else if (a == "ctor") {
      x[i].reset();
      const N n(n2);
      if constexpr (Alloc<H>::pmr) {
        if (n2 == 0) x[i].emplace(std::allocator_arg, Alloc<H>::get(i), std::in_place, n2);
        else if constexpr (Opt) x[i].emplace(std::allocator_arg, Alloc<H>::get(i), n); else x[i].emplace(std::allocator_arg, Alloc<H>::get(i), N(n2));
      } else { if (n2 == 0) x[i].emplace(std::in_place, n2); else if (n2 == 1) x[i].emplace(n); else x[i].emplace(N(n2)); }
      u[i] = false;
    } else if (a == "get") {
      H &h = at(i);
      const H &c = h;
      try {
        const N *p;
        switch (n2) {
        case 0: p = &h.value(); break;
        case 1: p = &c.value(); break;
        case 2: { N &&r = std::move(h).value(); p = &r; break; }
        default: { if constexpr (Opt) if (!h.has_value()) { (void)std::move(c).value(); }
                   auto &&r1 = *std::move(h); auto &&r2 = *std::move(c);
                   if (&*h != &*c || h.operator->() != &*c || &r1 != &*c || &r2 != &*c) { ret = {-6}; return; } const N &&r = std::move(c).value(); p = &r; break; }
        }
        ret = {p->v};
      } catch (const std::bad_optional_access &) { ret = {-1}; }
    } else if (a == "eqv") { const N n(n2); ret = {cat(i) == n}; }
    else if (a == "deep") { N *p = &*at(i); for (int k = 1; k < n2; ++k) p = &*p->next; p->v = n3; p->s = text(n3); }
    else if (a == "push") {
      N n(n2);
      if constexpr (Opt) { if constexpr (std::is_same_v<H, OI>) n.next = std::move(at(i)); else if (at(i).has_value()) n.next = std::move(*at(i)); }
      else n.next = std::move(*at(i));
      at(i) = std::move(n);
    } else if (a == "bomb") {
      try {
        if constexpr (Opt) at(i).emplace(Boom{});
        else { H t(std::in_place, Boom{}); }
        ret = {0};
      } catch (Boom) { ret = {-1}; u[i] = true; }
    } else if (a == "bombc") {
      Cnt::fuse = (long)state(j).size() - 1;
      try { at(i) = cat(j); ret = {0}; } catch (Boom) { ret = {-1}; u[i] = true; }
      Cnt::fuse = -1;
    } else if constexpr (isI) {
      if (a == "cmp") ret = {cat(i) < cat(j), cat(j) < cat(i)};
      else std::exit(9);
    } else {
      if (a == "reset") { at(i).reset(); u[i] = false; }
      else if (a == "null") { at(i) = H(std::nullopt); u[i] = false; }
      else if (a == "emplace") { N &r = at(i).emplace(n2); if (&r != &*at(i)) std::abort(); u[i] = false; }
      else if (a == "emplace0") { at(i).emplace(); u[i] = false; }
      else if (a == "has") ret = {cat(i).has_value()}, (cat(i) ? true : false) == cat(i).has_value() ? void() : std::abort();
      else if (a == "eqn") ret = {cat(i) == std::nullopt};
      else if (a == "pop") at(i) = std::move(at(i)->next);
      else if (a == "popc") at(i) = cat(i)->next;
      else if (a == "splice") { tail(*at(i)).next = std::move(at(j)); u[j] = true; }
      else if (a == "mon") {
        H &h = at(i);
        const H &c = h;
        auto g = [](const N &n) { return std::optional<int>(n.v); };
        auto t = [](const N &n) { return n.v; };
        std::optional<int> r;
        switch (n2) {
        case 0: r = h.and_then(g); break;
        case 1: r = c.and_then(g); break;
        case 2: r = std::move(h).and_then(g); break;
        case 3: r = std::move(c).and_then(g); break;
        case 4: r = h.transform(t); break;
        case 5: r = c.transform(t); break;
        case 6: r = std::move(h).transform(t); break;
        default: r = std::move(c).transform(t); break;
        }
        ret = {r.value_or(-1)};
      } else if (a == "orelse") {
        auto f = [&] { return H(std::in_place, n3); };
        Val r;
        if (n2 == 0) cat(i).or_else(f)->read(r); else { std::move(at(i)).or_else(f)->read(r); u[i] = true; }
        ret = r;
      } else std::exit(9);
    }
  }
};
template <class H, int Kind, int D> struct Opts : Base<H> { // optional fields. Kind 0 int, 1 string, 2 bool; D: has a default of its own
  using Base<H>::x; using Base<H>::u; using Base<H>::at; using Base<H>::cat;
  using T = H::value_type;
  static T mk(int v) {
    if constexpr (Kind == 2) return (v == 0) == (D == 1);
    else if constexpr (Kind == 1) return T(v == 5 ? Str() : v == 0 ? (D ? Str("the default, a text with memory of its own") : Str()) : text(v));
    else return v == 5 ? 0 : v == 0 ? (D ? 7 : 0) : v + 100;
  }
  static int unmk(const T &t) { for (int v : {0, 1, 2, 3, 5}) if (t == mk(v)) return v; return -7; }
  void init(int i, const Val &v) {
    x[i].emplace();
    u[i] = v == U;
    if (v == U) { at(i) = mk(1); H t(std::move(at(i))); }
    else if (v[0]) at(i) = mk(v[1]);
    else if (v[1]) {
      if constexpr (Kind == 2) { std::exit(9); } else *at(i) = mk(v[1]);
    }
  }
  Val state(int i) const { return u[i] ? U : Val{cat(i).has_value(), unmk(*cat(i))}; }
  long nodes() const { return -1; }
  bool enabled(const Str &a, int i, int j, int) {
    if ((a == "get" || a == "has" || a == "valor" || a == "deref") && u[i]) return false;
    return !(a == "eq" && (u[i] || u[j]));
  }
  void op(const Str &a, int i, int n2, int n3, int n4, Val &ret) {
    bool done;
    if (a == "copy" || a == "move" || a == "swap" || a == "cctor" || a == "mctor" || a == "eq") { this->common(a, i, n2 - 1, n3, ret, done); return; }
    if (a == "set") { if (n2 % 2) at(i) = mk(n2); else { const T t = mk(n2); at(i) = t; } u[i] = false; }
    else if (a == "ctor") { x[i].reset(); if (n2 % 2) x[i].emplace(mk(n2)); else { const T t = mk(n2); x[i].emplace(t); } u[i] = false; }
    else if (a == "reset") { at(i).reset(); u[i] = false; }
    else if (a == "emplace") { if (unmk(at(i).emplace(mk(n2))) != n2) { ret = {-6}; return; } u[i] = false; }
    else if (a == "emplace0") { at(i).emplace(); u[i] = false; }
    else if (a == "has") ret = {cat(i).has_value()};
    else if (a == "get") {
      H &h = at(i);
      const H &c = h;
      switch (n2) {
      case 0: ret = {unmk(h.value())}; break;
      case 1: ret = {unmk(c.value())}; break;
      case 2: { auto &&r = std::move(h).value(); ret = {unmk(r)}; break; }
      default: if constexpr (Kind != 2) { if (h.operator->() != c.operator->() || &*h != &*c) { ret = {-6}; return; } auto &&r = *std::move(h); if (&r != &*c) { ret = {-6}; return; } } { auto &&r = std::move(c).value(); ret = {unmk(r)}; }
      }
    } else if constexpr (Kind == 2) std::exit(9);
    else if (a == "null") { at(i) = std::nullopt; u[i] = false; }
    else if (a == "valor") { ret = {n2 % 2 ? unmk(cat(i).value_or(mk(n2))) : unmk(H(cat(i)).value_or(mk(n2)))}; }
    else if (a == "deref") { if (n2 % 2) *at(i) = mk(n2); else at(i).value() = mk(n2); }
    else if (a == "std") {
      std::optional<T> s;
      if (n3) s = mk(n2);
      if (n4 == 0) { if (n2 % 2) at(i) = s; else at(i) = std::move(s); }
      else { x[i].reset(); if (n2 % 2) x[i].emplace(s); else x[i].emplace(std::move(s)); }
      u[i] = false;
    } else std::exit(9);
  }
};
template <class H, bool Opt> struct Views : Base<H> {
  using Base<H>::x; using Base<H>::u; using Base<H>::at; using Base<H>::cat;
  using N = Node<std::allocator>;
  static N &pool(int v) { static N *p[4] = {new N(0), new N(1), new N(2), new N(3)}; return *p[v]; }
  static N &twin(int v) { static N *p[4] = {new N(0), new N(1), new N(2), new N(3)}; return *p[v]; }
  void init(int i, const Val &v) { x[i].emplace(); u[i] = v == U; if (v == U) at(i) = &pool(1); else if (!v.empty()) at(i) = &(i % 2 ? pool : twin)(v[0]); }
  Val state(int i) const {
    if (u[i]) return U;
    if constexpr (Opt) if (!cat(i).has_value()) return {};
    Val r; cat(i)->read(r); return r;
  }
  long nodes() const { return -1; }
  bool enabled(const Str &a, int i, int j, int) { if (a == "eq" || a == "cmp") return !u[i] && !u[j]; return !((a == "get" || a == "has" || a == "mon" || a == "eqn" || a == "eqv") && u[i]); }
  void op(const Str &a, int i, int n2, int n3, int, Val &ret) {
    bool done;
    if (a == "copy" || a == "move" || a == "swap" || a == "cctor" || a == "mctor" || a == "eq") { this->common(a, i, n2 - 1, n3, ret, done); return; }
    const H &c = cat(i);
    if (a == "set") { at(i) = &pool(n2); u[i] = false; }
    else if (a == "ctor") { x[i].reset(); x[i].emplace(&twin(n2)); u[i] = false; }
    else if (a == "get") {
      try { if (&c.value() != &*c || &*c != c.operator->()) { ret = {-6}; return; } ret = {c.value().v}; }
      catch (const std::bad_optional_access &) { ret = {-1}; }
    } else if constexpr (Opt) {
      if (a == "reset") { if (i % 2) at(i).reset(); else at(i) = nullptr; u[i] = false; }
      else if (a == "null") { at(i) = H(nullptr); u[i] = false; }
      else if (a == "has") ret = {c.has_value()};
      else if (a == "eqn") ret = {c == nullptr};
      else if (a == "mon") {
        auto g = [](const N &n) { return std::optional<int>(n.v); };
        auto t = [](const N &n) { return n.v; };
        ret = {(n2 < 2 ? c.and_then(g) : n2 < 4 ? std::move(c).and_then(g) : n2 < 6 ? c.transform(t) : std::move(c).transform(t)).value_or(-1)};
      } else std::exit(9);
    } else {
      if (a == "reset" || a == "null") { at(i).reset(nullptr); u[i] = false; }
      else if (a == "eqv") ret = {c == pool(n2)};
      else if (a == "cmp") ret = {c.value() < cat(n2 - 1).value(), cat(n2 - 1) == c ? false : cat(n2 - 1).value() < c.value()};
      else std::exit(9);
    }
  }
};
static Str txt(const Val &v) { Str s = "["; for (int x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
template <class R> Str go(const Str &id, const Str &init, const Str &ops) {
  Str out = "{\"id\":" + id + ",\"ev\":[";
  {
    R r;
    std::istringstream is(init); // e.g. 1,2/-9/
    for (int i = 0; i < 3; ++i) {
      Str t; std::getline(is, t, '/');
      Val v; std::istringstream vs(t); for (Str q; std::getline(vs, q, ',');) v.push_back(std::atoi(q.c_str()));
      r.init(i, v);
    }
    std::istringstream os(ops);
    bool first = true;
    for (Str one; std::getline(os, one, ';');) {
      std::istringstream ws(one);
      Str a; int n[5] = {0, 0, 0, 0, 0};
      ws >> a;
      for (int &q : n) ws >> q;
      Val ret;
      bool en = r.enabled(a, n[0] - 1, n[1] - 1, n[1]);
      if (en) r.op(a, n[0] - 1, n[1], n[2], n[3], ret);
      out += Str(first ? "" : ",") + "{\"ret\":" + (en ? txt(ret) : Str("[\"skip\"]")) + ",\"post\":[" + txt(r.state(0)) + "," + txt(r.state(1)) + "," + txt(r.state(2)) + "]";
      first = false;
      long want = r.nodes();
      out += Str(",\"res\":") + (want < 0 || want == Cnt::live ? "1" : "0") + "}";
    }
  }
  if (dflt.out || mr[0].out || mr[1].out) { std::fprintf(stderr, "LEAK memory of a resource in %s\n", id.c_str()); std::exit(8); }
  return out + "]}";
}
int main() {
  std::pmr::set_default_resource(&dflt);
  using hpp_proto::indirect, hpp_proto::optional_indirect, hpp_proto::optional;
  using NS = Node<std::allocator>;
  using NP = Node<std::pmr::polymorphic_allocator>;
  using PA = std::pmr::polymorphic_allocator<NP>;
  Str l;
  while (std::getline(std::cin, l)) {
    std::istringstream is(l);
    Str id, init, ops;
    int t;
    is >> id >> t >> init;
    init.erase(0, 1);
    std::getline(is, ops);
    std::fprintf(stderr, "@%s\n", id.c_str());
    alarm(20);
    Str r;
    bool owns = t < 4;
    switch (t) {
    case 0: r = go<Chains<optional_indirect<NS>, true>>(id, init, ops); break;
    case 1: r = go<Chains<optional_indirect<NP, PA>, true>>(id, init, ops); break;
    case 2: r = go<Chains<indirect<NS>, false>>(id, init, ops); break;
    case 3: r = go<Chains<indirect<NP, PA>, false>>(id, init, ops); break;
    case 4: r = go<Opts<optional<Str, hpp_proto::string_literal<"the default, a text with memory of its own">{}>, 1, 1>>(id, init, ops); break;
    case 5: r = go<Opts<optional<int, 7>, 0, 1>>(id, init, ops); break;
    case 6: r = go<Opts<optional<bool, true>, 2, 1>>(id, init, ops); break;
    case 7: r = go<Opts<optional<std::pmr::string>, 1, 0>>(id, init, ops); break;
    case 8: r = go<Opts<optional<bool>, 2, 0>>(id, init, ops); break;
    case 9: r = go<Views<hpp_proto::optional_indirect_view<NS>, true>>(id, init, ops); break;
    default: r = go<Views<hpp_proto::indirect_view<const NS>, false>>(id, init, ops); break;
    }
    if (owns && Cnt::live != 0) { std::fprintf(stderr, "LEAK of %ld objects in %s\n", Cnt::live, id.c_str()); std::exit(8); }
    if (!owns) Cnt::live = 0;
    std::puts(r.c_str());
  }
}
