// Constant evaluation: decoding to a dump and building blocks of constant messages.
#pragma once
#include <hpp_proto/binpb.hpp>
#include <algorithm>
#include <array>
#include <bit>
#include <cstdio>
#include <map>
#include <string>
#include <vector>
namespace kst {
template <class T> concept Msg = hpp_proto::concepts::has_meta<std::remove_cvref_t<T>>;
template <class T> concept Bool = std::is_same_v<T, bool> || std::is_same_v<T, hpp_proto::boolean>;
template <class T> concept Num = std::is_arithmetic_v<T> || std::is_enum_v<T>;
template <class T> concept StrLike = requires(const T &t) { t.data(); t.size(); } && (sizeof(typename T::value_type) == 1) && !Bool<typename T::value_type>;
struct W {
  std::string s;
  constexpr void sep() { if (!s.empty() && s.back() != '[') s += ','; }
  constexpr void open() { sep(); s += '['; }
  constexpr void close() { s += ']'; }
  constexpr void num(unsigned n) {
    sep();
    char b[12]{};
    int i = 0;
    do b[i++] = char('0' + n % 10); while (n /= 10);
    while (i) s += b[--i];
  }
};
template <class T> constexpr void dv(W &w, const T &x) {
  if constexpr (Bool<T>) {
    w.open();
    w.num(bool(x) ? 1 : 0);
    w.close();
  } else if constexpr (Num<T>) {
    w.open();
    for (unsigned char c : std::bit_cast<std::array<unsigned char, sizeof(T)>>(x)) w.num(c);
    w.close();
  } else if constexpr (StrLike<T>) {
    w.open();
    for (std::size_t i = 0; i < x.size(); ++i) w.num(static_cast<unsigned char>(x.data()[i]));
    w.close();
  } else if constexpr (Msg<T>) dump(w, x);
  else dv(w, *x);
}
template <class O> constexpr void d_v(W &w, const O &o) { dv(w, o); }
template <class O> constexpr void d_opt(W &w, const O &o) {
  w.open();
  if (o.has_value()) dv<std::remove_cvref_t<decltype(*o)>>(w, *o);
  w.close();
}
template <class R> constexpr void d_rep(W &w, const R &r) {
  w.open();
  for (std::size_t i = 0; i < r.size(); ++i) dv<std::remove_cv_t<typename R::value_type>>(w, r[i]);
  w.close();
}
// entries in the order of their keys' bytes, as the specification keeps maps; a key is written once
constexpr std::vector<unsigned> keyof(const std::string &s) {
  std::vector<unsigned> k;
  for (std::size_t i = 0; i < s.size(); ++i)
    if (s[i] >= '0' && s[i] <= '9') {
      unsigned n = 0;
      while (s[i] >= '0' && s[i] <= '9') n = n * 10 + unsigned(s[i++] - '0');
      k.push_back(n);
    }
  return k;
}
template <class R> constexpr void d_map(W &w, const R &r) {
  struct Ent { std::vector<unsigned> k; std::string ks, vs; };
  std::vector<Ent> es;
  for (const auto &[k, v] : r) {
    W a, b;
    dv<std::remove_cvref_t<decltype(k)>>(a, k);
    dv<std::remove_cvref_t<decltype(v)>>(b, v);
    es.push_back(Ent{keyof(a.s), a.s, b.s});
  }
  std::ranges::sort(es, [](const Ent &a, const Ent &b) { return a.k < b.k; });
  w.open();
  for (auto &e : es) {
    w.open();
    w.sep();
    w.s += e.ks;
    w.sep();
    w.s += e.vs;
    w.close();
  }
  w.close();
}
template <std::size_t I = 1, class Va> constexpr void d_one(W &w, const Va &v) {
  if constexpr (I == 1) w.open();
  if constexpr (I < std::variant_size_v<Va>) {
    if (v.index() == I) {
      w.num(I);
      dv(w, *std::get_if<I>(&v));
    } else d_one<I + 1>(w, v);
  }
  if constexpr (I == 1) w.close();
}
template <class U> constexpr void d_unk(W &w, const U &u) {
  if constexpr (requires { u.fields.data(); }) dv(w, u.fields);
  else {
    w.open();
    w.close();
  }
}
// ------------------------------------------------------------ constants
template <std::size_t N> consteval auto bytes(const char (&s)[N]) {
  std::array<std::byte, N - 1> r{};
  for (std::size_t i = 0; i + 1 < N; ++i) r[i] = static_cast<std::byte>(s[i]);
  return r;
}
template <class T, std::size_t N> consteval T num(const char (&s)[N]) {
  if constexpr (Bool<T>) return T(s[0] != 0);
  else {
    std::array<unsigned char, sizeof(T)> r{};
    static_assert(N - 1 == sizeof(T));
    for (std::size_t i = 0; i + 1 < N; ++i) r[i] = static_cast<unsigned char>(s[i]);
    return std::bit_cast<T>(r);
  }
}
// storage for a view of type T
template <class T, std::size_t N> consteval auto store(const char (&s)[N]) {
  std::array<std::remove_cv_t<typename T::value_type>, N - 1> r{};
  for (std::size_t i = 0; i + 1 < N; ++i) r[i] = static_cast<typename T::value_type>(s[i]);
  return r;
}
template <class T> using Elem = std::remove_cv_t<typename T::value_type>;
template <class T> using Deref = std::remove_cvref_t<decltype(*std::declval<T &>())>;
template <class T> using First = std::remove_cv_t<typename Elem<T>::first_type>;
template <class T> using Second = std::remove_cv_t<typename Elem<T>::second_type>;
template <class T> constexpr bool held = !Msg<T> && requires(T t) { t.pointer(); };
// an indirect view of a constant, or the constant itself
template <class T, class M> constexpr T wrap(const M &x) {
  if constexpr (held<T>) {
    T t;
    t.reset(const_cast<M *>(&x));
    return t;
  } else return x;
}
template <class O, class M> constexpr void set(O &o, const M &x) {
  if constexpr (hpp_proto::concepts::optional_indirect_view<O>) o = const_cast<M *>(&x);
  else o = x;
}
// ------------------------------------------------------------ evaluation
template <class F> consteval auto pack(F f) {
  constexpr auto n = F{}().size();
  std::array<char, n> r{};
  auto s = f();
  std::ranges::copy(s, r.begin());
  return r;
}
template <class T, std::size_t N> constexpr std::string dec(const std::array<std::byte, N> &b, char form) {
  auto fin = [](auto &&r) {
    W w;
    if (!r.has_value()) return std::string("[0]");
    dump(w, *r);
    return "[1,0," + w.s + "]";
  };
  if (form == 'A') return fin(hpp_proto::read_binpb<T>(b));
  if (form == 'S') {
    std::string s;
    for (auto c : b) s += static_cast<char>(c);
    return fin(hpp_proto::read_binpb<T>(s));
  }
  if (form == 'P') { // followed by a zero byte
    std::array<std::byte, N + 16> p{};
    std::ranges::copy(b, p.begin());
    return fin(hpp_proto::read_binpb<T>(std::span<const std::byte>{p.data(), N}, hpp_proto::padded_input));
  }
  std::vector<std::byte> v(b.begin(), b.end());
  return fin(hpp_proto::read_binpb<T>(v));
}
template <class T> constexpr std::string dumped(const T &x) {
  W w;
  dump(w, x);
  return w.s;
}
inline std::string jb(const auto &b) {
  W w;
  w.open();
  for (auto c : b) w.num(static_cast<unsigned char>(c));
  w.close();
  return w.s;
}
template <class A> std::string str(const A &a) { return std::string(a.data(), a.size()); }
} // namespace kst
