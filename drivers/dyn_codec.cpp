// Replays codec operations on dynamic messages (formats of codec_main.cpp; the first argument is the descriptor set)
#include "dyn.hpp"
using namespace drv;
static std::vector<std::string> words(const std::string &l, char c = ' ') {
  std::stringstream ss(l);
  std::vector<std::string> w;
  std::string t;
  while (std::getline(ss, t, c)) w.push_back(t);
  return w;
}
template <class F> auto with_limit(int lim, F f) {
  if (lim == 3) return f(hp::recursion_limit<3>);
  if (lim < 0 || lim == 1000) return f();
  return f(hp::detail::runtime_recursion_limit{std::uint32_t(lim)});
}
static EncRes enc(hp::message_value_cref m, const std::string &f, std::size_t size) {
  EncRes r;
  auto num = [&](std::size_t at) { return std::stol(f.substr(at)); };
  switch (f[0]) {
  case 'V': { std::vector<std::byte> b(f.size() > 1 ? 50 : 0, std::byte{0x77}); r.ok = hp::write_binpb(m, b).ok(); r.b = to_bytes(b); return r; }
  case 'S': { std::string b = f.size() > 1 ? "leftover content of the buffer" : ""; r.ok = hp::write_binpb(m, b).ok(); r.b = to_bytes(b); return r; }
  case 'U': { std::vector<unsigned char> b{1, 2, 3}; r.ok = hp::write_binpb(m, b).ok(); r.b = to_bytes(b); return r; }
  case 'A': {
    std::pmr::monotonic_buffer_resource mr;
    hp::equality_comparable_span<const std::byte> b;
    r.ok = hp::write_binpb(m, b, hp::alloc_from(mr)).ok();
    r.b = to_bytes(b);
    return r;
  }
  case 'F': {
    long d = num(1);
    if (long(size) + d < 0) d = -long(size);
    FixedBuf sp(std::size_t(long(size) + d));
    r.ok = hp::write_binpb(m, sp).ok();
    if (d < 0) { r.ok = r.ok ? 6 : 7; return r; }
    r.b = to_bytes(sp);
    for (std::size_t i = size; i < sp.size(); ++i) if (r.b[i] != std::byte{0xEE}) r.ok = 5;
    r.b.resize(size);
    return r;
  }
  case 'a': case 'c': case 'd': {
    Sink s;
    s.limited = false;
    for (auto &t : words(f.substr(1), '.')) { if (t == "L") s.limited = true; else s.sizes.push_back(t == "=" ? size : std::stoul(t)); }
    s.reported = *std::min_element(s.sizes.begin(), s.sizes.end());
    if (f[0] == 'a') r.ok = hp::write_binpb(m, s, hp::adaptive_mode).ok();
    else if (f[0] == 'c') r.ok = hp::write_binpb(m, s, hp::chunked_mode).ok();
    else r.ok = hp::write_binpb(m, s).ok();
    return r.ok ? s.result() : r;
  }
  }
  return r;
}
struct Seen {
  std::vector<std::pair<std::string, std::string>> v;
  void add(const std::string &res, const std::string &f) {
    auto s = std::find_if(v.begin(), v.end(), [&](auto &p) { return p.first == res; });
    if (s == v.end()) v.emplace_back(res, f);
    else if (s->second.size() < 300) s->second += "," + f;
  }
  std::string text() {
    std::string a, b;
    for (auto &[x, y] : v) { if (!a.empty()) a += ",", b += ","; a += x; b += "\"" + y + "\""; }
    return "\"res\":[" + a + "],\"forms\":[" + b + "]";
  }
};
int main(int, char **argv) {
  signal(SIGALRM, on_alarm);
  std::ifstream in(argv[1], std::ios::binary);
  std::string set((std::istreambuf_iterator<char>(in)), {});
  auto fr = hp::dynamic_message_factory::create(set);
  if (!fr.has_value()) { std::cerr << "the descriptor set was refused: " << int(fr.error()) << "\n"; return 3; }
  fac() = &*fr;
  std::string line;
  while (std::getline(std::cin, line)) {
    auto w = words(line);
    if (w.empty()) continue;
    current_case = line;
    std::cerr << "@" << w[1] << "\n";
    alarm(20);
    std::pmr::monotonic_buffer_resource mr;
    auto name = "vt." + w[3];
    auto mx = fac()->get_message(name, mr);
    if (!mx.has_value()) { std::cerr << "no message " << name << "\n"; return 3; }
    hp::message_value_mref m = *mx;
    Seen seen;
    if (w[0] == "dec") {
      Bytes b = unhex(w[6]);
      int lim = std::stoi(w[5]);
      for (auto &f : words(w[7], ',')) {
        auto fresh = fac()->get_message(name, mr);
        hp::message_value_mref x = *fresh;
        if (w.size() > 8) (void)hp::read_binpb(x, unhex(w[8])).ok();
        Res r = with_limit(lim, [&](auto... o) { return run_dec(x, b, f, false, o...); });
        seen.add(r.ok == 2 ? "[2,0,[]]" : "[" + std::to_string(r.ok) + "," + std::to_string(r.ok == 0 ? r.ec : 0) + "," + r.v + "]", f);
      }
      std::cout << "{\"id\":" << w[1] << ",\"op\":\"dec\",\"tid\":" << w[2] << ",\"ty\":" << w[4] << ",\"keep\":false,\"lim\":" << (lim < 0 || lim == 1000 ? 100 : lim) << ",\"b\":" << jbytes(b) << "," << seen.text() << "}\n";
    } else if (w[0] == "enc") {
      DynArena ar;
      build(ar, parseV(w[5]), m);
      EncRes v = enc(m, "V", 0);
      auto fresh = fac()->get_message(name, mr);
      hp::message_value_mref n = *fresh;
      Res d;
      if (v.ok == 1) d = run_dec(n, v.b, "C", false);
      for (auto &f : words(w[6], ',')) {
        EncRes e = enc(m, f, v.b.size());
        seen.add("[" + std::to_string(e.ok) + "," + (e.ok == 1 ? jbytes(e.b) : "[]") + "]", f);
      }
      std::cout << "{\"id\":" << w[1] << ",\"op\":\"enc\",\"tid\":" << w[2] << ",\"ty\":" << w[4] << ",\"v\":" << w[5] << ",\"rv\":" << dumps(m, true) << ",\"cv\":" << dumps(m) << ",\"rt\":[" << d.ok << "," << d.v << "]," << seen.text() << "}\n";
    } else if (w[0] == "enl") {
      int lim = std::stoi(w[5]);
      DynArena ar;
      build(ar, parseV(w[6]), m);
      with_limit(lim, [&](auto... o) {
        std::vector<std::byte> b;
        Sink s;
        s.sizes = {7};
        s.reported = 7;
        s.limited = false;
        bool x = hp::write_binpb(m.cref(), b, o...).ok();
        bool y = hp::write_binpb(m.cref(), s, hp::chunked_mode, o...).ok();
        seen.add(x != y ? "[3,[]]" : !x ? "[0,[]]" : s.result().b != b ? "[4,[]]" : "[1,[]]", "V,c7");
        return 0;
      });
      std::cout << "{\"id\":" << w[1] << ",\"op\":\"enl\",\"tid\":" << w[2] << ",\"ty\":" << w[4] << ",\"lim\":" << (lim == 1000 ? 100 : lim) << ",\"v\":" << w[6] << "," << seen.text() << "}\n";
    }
    std::cout.flush();
    alarm(0);
  }
}
