// Replays histories of flat_map operations:  <id> <type> <init pairs> op;op;...   ->   {"id":..,"ev":[{"ret":..,"post":..,"res":..},..]}
#include <hpp_proto/field_types.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <iostream>
#include <memory_resource>
#include <sstream>
#include <string>
#include <unistd.h>
using P = std::vector<std::pair<int, int>>;
struct Counting : std::pmr::memory_resource {
  long out = 0;
  std::pmr::memory_resource *up = std::pmr::new_delete_resource();
  void *do_allocate(std::size_t n, std::size_t a) override { ++out; return up->allocate(n, a); }
  void do_deallocate(void *p, std::size_t n, std::size_t a) override { --out; up->deallocate(p, n, a); }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
static Counting dflt, other;
struct Boom {};
struct Bomb { operator std::string_view() const { throw Boom{}; } };
template <class S> S txt(int v) {
  char b[80];
  std::snprintf(b, sizeof b, "%07d-a text long enough to need memory of its own", v + 1000000);
  return S(b);
}
static int num(std::string_view s) { return s.empty() ? 0 : std::atoi(std::string(s).c_str()) - 1000000; }
template <class X> X mk(int v);
template <> int mk<int>(int v) { return v; }
template <> std::string mk<std::string>(int v) { return v == 0 ? std::string() : txt<std::string>(v); }
template <> std::pmr::string mk<std::pmr::string>(int v) { return v == 0 ? std::pmr::string() : txt<std::pmr::string>(v); }
struct T0 { // the plain map
  using M = stdext::flat_map<int, std::string>;
  static int key(int k) { return k; }
  static int unkey(int k) { return k; }
  static M make() { return M(); }
  static bool res(const M &) { return true; }
};
struct T2 { // descending order
  using M = stdext::flat_map<int, std::string, std::greater<int>>;
  static int key(int k) { return 1000 - k; }
  static int unkey(int k) { return 1000 - k; }
  static M make() { return M(); }
  static bool res(const M &) { return true; }
};
struct T3 { // other containers
  using M = stdext::flat_map<std::string, int, std::less<>, std::deque<std::string>, std::deque<int>>;
  static std::string key(int k) { return txt<std::string>(k); }
  static int unkey(std::string_view k) { return num(k); }
  static M make() { return M(); }
  static bool res(const M &) { return true; }
};
struct T1 { // polymorphic allocators
  using K = std::pmr::string;
  using M = stdext::flat_map<K, std::pmr::string, std::less<K>, std::pmr::vector<K>, std::pmr::vector<std::pmr::string>>;
  static Counting mr;
  static K key(int k) { return txt<K>(k); }
  static int unkey(std::string_view k) { return num(k); }
  static M make() { return M(std::pmr::polymorphic_allocator<>(&mr)); }
  static bool res(const M &m) {
    bool ok = m.keys().get_allocator().resource() == &mr && m.values().get_allocator().resource() == &mr;
    for (auto &k : m.keys()) ok = ok && k.get_allocator().resource() == &mr;
    for (auto &v : m.values()) ok = ok && v.get_allocator().resource() == &mr;
    return ok;
  }
};
Counting T1::mr;
struct Tagged { // a comparator with a state of its own, which has to go where its map goes
  int id = 0;
  bool operator()(int a, int b) const { return a < b; }
};
struct T4 {
  using M = stdext::flat_map<int, std::string, Tagged>;
  static inline int want = 0;
  static int key(int k) { return k; }
  static int unkey(int k) { return k; }
  static M make() { return M(Tagged{7}); }
  static bool res(const M &m) { return m.key_comp().id == want; }
};
static int unval(int v) { return v; }
static int unval(std::string_view v) { return num(v); }

template <class T> struct Run {
  using M = T::M;
  using K = M::key_type;
  using V = M::mapped_type;
  using KC = M::key_container_type;
  using VC = M::mapped_container_type;
  static constexpr bool pmr = std::is_same_v<T, T1>;
  static constexpr bool transparent = requires { typename M::key_compare::is_transparent; };
  static constexpr bool bombs = !std::is_same_v<V, int>;
  std::optional<M> m;
  std::ostringstream o;
  static K key(int k) { return T::key(k); }
  static V val(int v) { return mk<V>(v); }
  static auto pos(const M &x, auto it) { return typename M::const_iterator(it) - x.begin(); }
  static auto pos(M &x, auto it) { return typename M::const_iterator(it) - x.cbegin(); }
  static std::string flat(const M &x) {
    std::string s = "[";
    for (auto &&[k, v] : x) s += (s.size() > 1 ? "," : "") + ("[" + std::to_string(T::unkey(k)) + "," + std::to_string(unval(v)) + "]");
    return s + "]";
  }
  static std::string state(const M &x) {
    bool ok = x.keys().size() == x.values().size() && x.size() == x.keys().size() && x.empty() == x.keys().empty();
    for (std::size_t i = 1; ok && i < x.keys().size(); ++i) ok = x.key_comp()(x.keys()[i - 1], x.keys()[i]);
    if (!ok) return "[[-999,-999]]";
    return flat(x);
  }
  static P pairs(const std::string &t) {
    P r;
    const char *c = t.c_str() + 1;
    while (*c && *c != ']') {
      char *e;
      int k = std::strtol(c, &e, 10), v = std::strtol(e + 1, &e, 10);
      r.emplace_back(k, v);
      c = *e == ',' ? e + 1 : e;
    }
    return r;
  }
  using VT = M::value_type;
  static std::vector<VT> vts(const P &p) {
    std::vector<VT> r;
    for (auto [k, v] : p) r.emplace_back(key(k), val(v));
    return r;
  }
  static KC keysof(const P &p) { KC r; for (auto [k, v] : p) r.push_back(key(k)); return r; }
  static VC valsof(const P &p) { VC r; for (auto [k, v] : p) r.push_back(val(v)); return r; }
  static KC keysin(const P &p) { if constexpr (pmr) { KC r(&T1::mr); for (auto [k, v] : p) r.push_back(key(k)); return r; } else return keysof(p); }
  static VC valsin(const P &p) { if constexpr (pmr) { VC r(&T1::mr); for (auto [k, v] : p) r.push_back(val(v)); return r; } else return valsof(p); }
  template <class F> static void il(const P &p, F f) {
    auto v = vts(p);
    switch (v.size()) {
    case 0: f(std::initializer_list<VT>{}); break;
    case 1: f(std::initializer_list<VT>{v[0]}); break;
    case 2: f(std::initializer_list<VT>{v[0], v[1]}); break;
    case 3: f(std::initializer_list<VT>{v[0], v[1], v[2]}); break;
    case 4: f(std::initializer_list<VT>{v[0], v[1], v[2], v[3]}); break;
    default: f(std::initializer_list<VT>{v[0], v[1], v[2], v[3], v[4]}); break;
    }
  }
  M fresh(const P &p) { // by the most elementary means
    M x = T::make();
    for (auto [k, v] : p) x.insert_or_assign(key(k), val(v));
    return x;
  }
  auto alloc() {
    if constexpr (pmr) return std::pmr::polymorphic_allocator<>(&T1::mr); else return std::allocator<V>();
  }
  static constexpr bool has_alloc = pmr;
  static constexpr bool tagged = std::is_same_v<T, T4>;
  static auto cmp() { if constexpr (tagged) return Tagged{5}; else return typename M::key_compare(); }
  static void want(int id) { if constexpr (tagged) T4::want = id; }
  void put(const char *f, auto... a) { char b[200]; std::snprintf(b, sizeof b, f, (long)a...); o << b; }
  void op(const std::vector<std::string> &w) {
    auto n = [&](std::size_t i) { return std::atoi(w[i].c_str()); };
    const std::string &a = w[0];
    M &x = *m;
    const M &cx = x;
    auto hint = [&](int h) { return cx.begin() + h; };
    int f = w.size() > 1 ? n(1) : 0;
    if (a == "emplace") {
      std::pair<typename M::iterator, bool> r;
      switch (f) {
      case 0: r = x.emplace(key(n(2)), val(n(3))); break;
      case 1: { const VT p(key(n(2)), val(n(3))); r = x.insert(p); break; }
      case 2: { VT p(key(n(2)), val(n(3))); r = x.insert(std::move(p)); break; }
      case 3: { std::pair<K, V> p(key(n(2)), val(n(3))); r = x.insert(std::move(p)); break; }
      default: { std::pair<K, V> p(key(n(2)), val(n(3))); r = x.emplace(p); break; }
      }
      put("[%ld,%ld]", pos(x, r.first), r.second);
    } else if (a == "emplace_h") {
      typename M::iterator r;
      switch (f) {
      case 0: r = x.emplace_hint(hint(n(2)), key(n(3)), val(n(4))); break;
      case 1: { const VT p(key(n(3)), val(n(4))); r = x.insert(hint(n(2)), p); break; }
      case 2: { VT p(key(n(3)), val(n(4))); r = x.insert(hint(n(2)), std::move(p)); break; }
      default: { std::pair<K, V> p(key(n(3)), val(n(4))); r = x.insert(hint(n(2)), std::move(p)); break; }
      }
      put("[%ld]", pos(x, r));
    } else if (a == "try") {
      const K k = key(n(2));
      auto r = f == 0 ? x.try_emplace(k, val(n(3))) : x.try_emplace(key(n(2)), val(n(3)));
      put("[%ld,%ld]", pos(x, r.first), r.second);
    } else if (a == "try_d") {
      const K k = key(n(2));
      auto r = f == 0 ? x.try_emplace(k) : x.try_emplace(key(n(2)));
      put("[%ld,%ld]", pos(x, r.first), r.second);
    } else if (a == "try_h") {
      const K k = key(n(3));
      auto r = f == 0 ? x.try_emplace(hint(n(2)), k, val(n(4))) : x.try_emplace(hint(n(2)), key(n(3)), val(n(4)));
      put("[%ld]", pos(x, r));
    } else if (a == "ioa") {
      const K k = key(n(2));
      const V v = val(n(3));
      auto r = f == 0 ? x.insert_or_assign(k, v) : f == 1 ? x.insert_or_assign(key(n(2)), v) : f == 2 ? x.insert_or_assign(k, val(n(3))) : x.insert_or_assign(key(n(2)), val(n(3)));
      put("[%ld,%ld]", pos(x, r.first), r.second);
    } else if (a == "ioa_h") {
      const K k = key(n(3));
      auto r = f == 0 ? x.insert_or_assign(hint(n(2)), k, val(n(4))) : x.insert_or_assign(hint(n(2)), key(n(3)), val(n(4)));
      put("[%ld]", pos(x, r));
    } else if (a == "alias_try") {
      auto r = x.try_emplace(key(n(2)), x.values()[n(1)]);
      put("[%ld,%ld]", pos(x, r.first), r.second);
    } else if (a == "alias_ioa") {
      auto r = x.insert_or_assign(key(n(2)), x.values()[n(1)]);
      put("[%ld,%ld]", pos(x, r.first), r.second);
    } else if (a == "idx") {
      const K k = key(n(2));
      auto &v = f == 0 ? x[k] : x[key(n(2))];
      put("[%ld]", unval(v));
    } else if (a == "set") {
      const K k = key(n(2));
      if (f == 0) x[k] = val(n(3)); else x[key(n(2))] = val(n(3));
      o << "[]";
    } else if (a == "at") {
      try { put("[%ld]", f == 0 ? unval(x.at(key(n(2)))) : unval(cx.at(key(n(2))))); } catch (const std::out_of_range &) { o << "[-1]"; }
    } else if (a == "find" || a == "lb" || a == "ub" || a == "er" || a == "count") {
      const K k = key(n(2));
      auto go = [&](auto &y, const auto &q) {
        if (a == "find") put("[%ld]", pos(y, y.find(q)));
        else if (a == "lb") put("[%ld]", pos(y, y.lower_bound(q)));
        else if (a == "ub") put("[%ld]", pos(y, y.upper_bound(q)));
        else if (a == "er") { auto r = y.equal_range(q); put("[%ld,%ld]", pos(y, r.first), pos(y, r.second)); }
        else { bool c = y.count(q) != 0; if constexpr (requires { y.contains(q); }) if (y.contains(q) != c || y.count(q) > 1) { o << "[-2]"; return; } put("[%ld]", c); }
      };
      if constexpr (transparent) {
        std::string_view q(k);
        if (f == 0) go(x, k); else if (f == 1) go(cx, k); else if (f == 2) go(x, q); else go(cx, q);
      } else { if (f & 1) go(cx, k); else go(x, k); }
    } else if (a == "erase_p") {
      auto r = f == 0 ? x.erase(x.begin() + n(2)) : x.erase(hint(n(2)));
      put("[%ld]", pos(x, r));
    } else if (a == "erase_k") {
      put("[%ld]", x.erase(key(n(1))));
    } else if (a == "erase_r") {
      auto r = x.erase(hint(n(1)), hint(n(2)));
      put("[%ld]", pos(x, r));
    } else if (a == "ins_r") {
      auto p = pairs(w[2]);
      if (f == 0) { auto v = vts(p); x.insert(v.begin(), v.end()); } else il(p, [&](auto l) { x.insert(l); });
      o << "[]";
    } else if (a == "ins_s") {
      auto p = pairs(w[2]);
      if (f == 0) { auto v = vts(p); x.insert(stdext::sorted_unique, v.begin(), v.end()); } else il(p, [&](auto l) { x.insert(stdext::sorted_unique, l); });
      o << "[]";
    } else if (a == "assign_il") {
      il(pairs(w[2]), [&](auto l) { x = l; });
      o << "[]";
    } else if (a == "clear") { x.clear(); o << "[]";
    } else if (a == "size") { put("[%ld,%ld]", x.size(), x.empty());
    } else if (a == "iter") {
      std::string s = "[";
      auto go = [&](auto b, auto e) { for (; b != e; ++b) { auto &&[k, v] = *b; s += (s.size() > 1 ? "," : "") + ("[" + std::to_string(T::unkey(k)) + "," + std::to_string(unval(v)) + "]"); if (s.size() > 100000) break; } };
      switch (f) {
      case 0: go(x.begin(), x.end()); break;
      case 1: go(cx.begin(), cx.end()); break;
      case 2: go(cx.cbegin(), cx.cend()); break;
      case 3: go(x.rbegin(), x.rend()); break;
      case 4: go(cx.rbegin(), cx.rend()); break;
      default: go(cx.crbegin(), cx.crend()); break;
      }
      o << s << "]";
    } else if (a == "extract") {
      auto c = std::move(x).extract();
      std::string s = "[";
      for (std::size_t i = 0; i < c.keys.size() && i < c.values.size(); ++i) s += (i ? "," : "") + ("[" + std::to_string(T::unkey(c.keys[i])) + "," + std::to_string(unval(c.values[i])) + "]");
      o << (c.keys.size() == c.values.size() ? s + "]" : "[-3]");
    } else if (a == "replace") {
      auto p = pairs(w[2]);
      x.replace(keysin(p), valsin(p));
      o << "[]";
    } else if (a == "reserve") {
      if constexpr (hpp_proto::concepts::reservable_flat_map<M>) hpp_proto::reserve(x, n(1));
      o << "[]";
    } else if (a == "ctor") {
      auto p = pairs(w[2]);
      if constexpr (pmr) {
        auto al = alloc();
        m.reset();
        want(f % 6 == 3 || f % 6 == 5 ? 5 : 0);
        switch (f % 6) {
        case 0: { auto v = vts(p); m.emplace(v.begin(), v.end(), al); break; }
        case 1: m.emplace(keysof(p), valsof(p), al); break;
        case 2: il(p, [&](auto l) { m.emplace(l, al); }); break;
        case 3: m.emplace(keysin(p), valsin(p)); break;
        case 4: { auto v = vts(p); m.emplace(v.begin(), v.end(), cmp(), al); break; }
        default: il(p, [&](auto l) { m.emplace(l, cmp(), al); }); break;
        }
      } else {
        m.reset();
        want(f % 6 == 3 || f % 6 == 5 ? 5 : 0);
        switch (f % 6) {
        case 0: { auto v = vts(p); m.emplace(v.begin(), v.end()); break; }
        case 1: m.emplace(keysof(p), valsof(p)); break;
        case 2: il(p, [&](auto l) { m.emplace(l); }); break;
        case 3: { auto v = vts(p); m.emplace(v.begin(), v.end(), cmp()); break; }
        case 4: m.emplace(keysof(p), valsof(p), std::allocator<K>()); break;
        default: il(p, [&](auto l) { m.emplace(l, cmp(), std::allocator<V>()); }); break;
        }
      }
      o << "[]";
    } else if (a == "ctor_s") {
      auto p = pairs(w[2]);
      using stdext::sorted_unique;
      if constexpr (pmr) {
        auto al = alloc();
        m.reset();
        switch (f % 5) {
        case 0: { auto v = vts(p); m.emplace(sorted_unique, v.begin(), v.end(), al); break; }
        case 1: m.emplace(sorted_unique, keysof(p), valsof(p), al); break;
        case 2: il(p, [&](auto l) { m.emplace(sorted_unique, l, al); }); break;
        case 3: m.emplace(sorted_unique, keysin(p), valsin(p)); break;
        default: { auto v = vts(p); m.emplace(sorted_unique, v.begin(), v.end(), cmp(), al); break; }
        }
      } else {
        m.reset();
        want(f % 5 == 3 ? 5 : 0);
        switch (f % 5) {
        case 0: { auto v = vts(p); m.emplace(sorted_unique, v.begin(), v.end()); break; }
        case 1: m.emplace(sorted_unique, keysof(p), valsof(p)); break;
        case 2: il(p, [&](auto l) { m.emplace(sorted_unique, l); }); break;
        case 3: { auto v = vts(p); m.emplace(sorted_unique, v.begin(), v.end(), cmp()); break; }
        default: m.emplace(sorted_unique, keysof(p), valsof(p), std::allocator<K>()); break;
        }
      }
      o << "[]";
    } else if (a == "copy") {
      std::string before = state(x);
      std::optional<M> y;
      bool same = true;
      switch (f) {
      case 0: y.emplace(x); same = flat(x) == before; break;
      case 1: y.emplace(fresh({{1, 2}, {77, 1}})); *y = cx; same = flat(x) == before; break;
      case 2: y.emplace(std::move(x)); break;
      case 3: y.emplace(fresh({{1, 2}, {77, 1}})); *y = std::move(x); break;
      case 4: y.emplace(cx, alloc()); same = flat(x) == before; break;
      case 5: y.emplace(std::move(x), alloc()); break;
      default: { M &self = x; x = self; y.emplace(cx, alloc()); same = flat(x) == before; break; }
      }
      // copies are independent; what was moved from is still a usable map
      if (f != 2 && f != 3 && f != 5) {
        for (auto &&[k, v] : x) v = val(3);
        same = same && flat(*y) == before;
      } else {
        x.clear();
        x.insert_or_assign(key(5), val(6));
        same = flat(x) == "[[5,6]]";
      }
      x.clear();
      if constexpr (pmr) { M z(std::move(*y), alloc()); m.reset(); m.emplace(std::move(z)); } else { m.reset(); m.emplace(std::move(*y)); }
      put("[%ld]", same);
    } else if (a == "swap") {
      M y = fresh(pairs(w[2]));
      if constexpr (tagged) { y = M(Tagged{9}); for (auto [k, v] : pairs(w[2])) y.insert_or_assign(key(k), val(v)); }
      const int mine = T4::want;
      if (f == 0) x.swap(y); else { using std::swap; swap(x, y); }
      want(9);
      if constexpr (tagged) { if (y.key_comp().id != mine) { o << "[[-998,-998]]"; return; } }
      o << state(y);
    } else if (a == "cmp") {
      M y = fresh(pairs(w[2]));
      put("[%ld,%ld,%ld,%ld,%ld,%ld]", cx == y, cx != y, cx < y, cx <= y, cx > y, cx >= y);
    } else if (a == "bomb_try" || a == "bomb_ioa" || a == "bomb_h") {
      if constexpr (bombs) {
        const K k = key(n(a == "bomb_h" ? 3 : 2));
        try {
          if (a == "bomb_h") { auto r = f == 0 ? x.try_emplace(hint(n(2)), k, Bomb{}) : x.try_emplace(hint(n(2)), K(k), Bomb{}); put("[%ld]", pos(x, r)); }
          else if (a == "bomb_try") { auto r = f == 0 ? x.try_emplace(k, Bomb{}) : x.try_emplace(K(k), Bomb{}); put("[%ld,%ld]", pos(x, r.first), r.second); }
          else { auto r = f == 0 ? x.insert_or_assign(k, Bomb{}) : x.insert_or_assign(K(k), Bomb{}); put("[%ld,%ld]", pos(x, r.first), r.second); }
        } catch (Boom) { o << "[-1]"; }
      } else {
        o << "null";
      }
    } else { std::fprintf(stderr, "unknown op %s\n", a.c_str()); std::exit(9); }
  }
  std::string go(const std::string &id, const std::string &init, const std::string &ops) {
    m.emplace(fresh(pairs(init)));
    want(7);
    o << "{\"id\":" << id << ",\"ev\":[";
    std::istringstream is(ops);
    std::string one;
    bool first = true;
    while (std::getline(is, one, ';')) {
      std::istringstream ws(one);
      std::vector<std::string> w;
      for (std::string t; ws >> t;) w.push_back(t);
      o << (first ? "" : ",") << "{\"ret\":";
      first = false;
      op(w);
      o << ",\"post\":" << state(*m) << ",\"res\":" << (T::res(*m) && dflt.out == 0 ? 1 : 0) << "}";
    }
    o << "]}";
    m.reset();
    if constexpr (pmr) if (T1::mr.out) { std::fprintf(stderr, "LEAK in %s\n", id.c_str()); std::exit(8); }
    return o.str();
  }
};
int main() {
  std::pmr::set_default_resource(&dflt);
  std::string l;
  while (std::getline(std::cin, l)) {
    std::istringstream is(l);
    std::string id, init, ops;
    int t;
    is >> id >> t >> init;
    std::getline(is, ops);
    std::fprintf(stderr, "@%s\n", id.c_str());
    alarm(20);
    std::string r;
    if (t == 0) r = Run<T0>().go(id, init, ops);
    else if (t == 1) r = Run<T1>().go(id, init, ops);
    else if (t == 2) r = Run<T2>().go(id, init, ops);
    else if (t == 3) r = Run<T3>().go(id, init, ops);
    else r = Run<T4>().go(id, init, ops);
    std::puts(r.c_str());
  }
}
