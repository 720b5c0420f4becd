// Descriptor sets given to the loader of the current tree.
//   <id> L <hex of a FileDescriptorSet> <message,message,..>   load it and tell the meaning of every field of the messages
//   <id> F <hex>                                               load it (anything) and use every message: only crashes count
#include "dyn.hpp"
using namespace drv;
using Fac = hp::dynamic_message_factory;
static std::string esc(std::string_view s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\';
    o += c;
  }
  return o;
}
static std::string list(std::string_view b) {
  W w;
  w.bytes(b.data(), b.size());
  return w.s;
}
static std::string text(const std::vector<std::byte> &b) { return std::string(reinterpret_cast<const char *>(b.data()), b.size()); }
static Bytes raw(const std::string &h) {
  Bytes b;
  for (std::size_t i = 0; i + 1 < h.size(); i += 2) b.push_back(std::byte(std::stoi(h.substr(i, 2), nullptr, 16)));
  return b;
}
static std::string encoded(hp::message_value_cref m, bool &ok) {
  std::vector<std::byte> out;
  ok = hp::write_binpb(m, out).ok();
  return text(out);
}
static std::string varint(std::uint64_t v) {
  std::string s;
  do { s += char((v & 127) | (v > 127 ? 128 : 0)); v >>= 7; } while (v);
  return s;
}
static const char *presence(const hp::field_descriptor_t &d) {
  using enum hp::field_presence_t;
  switch (d.resolved_info().presence()) {
  case IMPLICIT: return "implicit";
  case EXPLICIT: return "explicit";
  case REQUIRED: return "required";
  case ONEOF: return "oneof";
  case REPEATED: return "repeated";
  }
  return "?";
}
static void set_zero(hp::field_mref f) {
  f.visit([&](auto c) {
    using C = decltype(c);
    if constexpr (std::is_same_v<C, hp::repeated_message_field_mref>) { c.emplace_back(); c.emplace_back(); }
    else if constexpr (std::is_same_v<C, hp::repeated_enum_field_mref>) {
      auto n = f.descriptor().enum_field_type_descriptor()->proto().value[0].number;
      c.resize(2);
      c[0].set(hp::enum_number{n});
      c[1].set(hp::enum_number{n});
    } else if constexpr (C::is_repeated) c.resize(2);
    else if constexpr (std::is_same_v<C, hp::message_field_mref>) c.emplace();
    else if constexpr (std::is_same_v<C, hp::enum_field_mref>) c.set(hp::enum_number{f.descriptor().enum_field_type_descriptor()->proto().value[0].number});
    else if constexpr (std::is_same_v<C, hp::string_field_mref>) c.set(std::string_view{});
    else if constexpr (std::is_same_v<C, hp::bytes_field_mref>) c.set(hp::bytes_view{});
    else c.set(typename C::value_type{});
  });
}
static void dflt(hp::field_cref f, std::string &v, std::string &fv) {
  v = "[]";
  f.visit([&](auto c) {
    using C = decltype(c);
    if constexpr (C::is_repeated || std::is_same_v<C, hp::message_field_cref>) {}
    else if constexpr (std::is_same_v<C, hp::enum_field_cref>) v = list(std::to_string(c.value().number()));
    else if constexpr (std::is_same_v<C, hp::string_field_cref>) v = list(c.value());
    else if constexpr (std::is_same_v<C, hp::bytes_field_cref>) v = list(std::string_view(reinterpret_cast<const char *>(c.value().data()), c.value().size()));
    else {
      auto x = c.value();
      if constexpr (std::is_floating_point_v<decltype(x)>) {
        std::uint64_t bits = 0;
        std::memcpy(&bits, &x, sizeof x);
        char b[32];
        std::snprintf(b, sizeof b, x != x ? "nan" : "%lx", (unsigned long)bits);
        fv = b;
      } else if constexpr (std::is_same_v<decltype(x), bool>) v = list(x ? "1" : "0");
      else v = list(std::to_string(x));
    }
  });
}
static std::string meaning(const Fac &f, const hp::message_descriptor_t &md, std::size_t i) {
  auto &d = md.fields()[i];
  std::pmr::monotonic_buffer_resource mr;
  std::string v, fv, z, x;
  bool ok = true;
  {
    auto m = f.get_message(md.full_name(), mr).value();
    dflt(m.cref().field(d), v, fv);
    set_zero(m.field(d));
    z = encoded(m.cref(), ok);
  }
  std::string odd = "[]";
  using T = google::protobuf::FieldDescriptorProto_::Type;
  auto type = d.proto().type;
  if (!md.is_map_entry() && (type == T::TYPE_ENUM || type == T::TYPE_STRING)) {
    auto m = f.get_message(md.full_name(), mr).value();
    std::string in = varint(std::uint64_t(d.proto().number) << 3 | (type == T::TYPE_STRING ? 2 : 0)) + (type == T::TYPE_STRING ? std::string("\1\xff") : varint(123456));
    bool good = hp::read_binpb(m, in).ok();
    odd = good ? list(encoded(m.cref(), good)) : "[-1]";
  }
  auto *e = d.enum_field_type_descriptor();
  auto B = [](bool b) { return b ? "true" : "false"; };
  return std::string("{\"n\":") + std::to_string(d.proto().number) + ",\"p\":\"" + presence(d) + "\",\"k\":" + B(d.resolved_info().is_packed()) +
         ",\"d\":" + B(d.resolved_info().is_delimited()) + ",\"u\":" + B(d.resolved_info().requires_utf8_validation()) + ",\"c\":" + B(e && e->is_closed()) +
         ",\"m\":" + B(d.is_map_entry()) + ",\"z\":" + (ok ? list(z) : "[-2]") + ",\"x\":" + odd + ",\"v\":" + v + ",\"fv\":\"" + fv + "\"}";
}
static void use(const Fac &f, const std::string &name) {
  std::pmr::monotonic_buffer_resource mr;
  auto m = f.get_message(name, mr);
  if (!m.has_value()) return;
  for (std::size_t i = 0; i < m->descriptor().fields().size(); ++i) meaning(f, m->descriptor(), i);
}
int main() {
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string id, op, hex, names;
    is >> id >> op >> hex >> names;
    std::cerr << "@" << id << std::endl;
    auto bytes = raw(hex == "-" ? "" : hex);
    std::vector<std::byte> exact(bytes);
    auto f = Fac::create(exact);
    std::string out = "{\"id\":\"" + id + "\",\"ev\":[{\"err\":" + std::to_string(f.has_value() ? 0 : int(f.error())) + ",\"ok\":" + (f.has_value() ? "true" : "false") + ",\"msgs\":[";
    std::stringstream ns(names == "-" ? "" : names);
    std::string n;
    bool first = true;
    if (f.has_value()) {
      std::pmr::monotonic_buffer_resource mr;
      if (f->get_message("no.such.message", mr).has_value()) out += "\"?\",";
    }
    while (f.has_value() && std::getline(ns, n, ',')) {
      if (op == "F") { use(*f, n); continue; }
      std::pmr::monotonic_buffer_resource mr;
      auto m = f->get_message(n, mr);
      if (!first) out += ",";
      first = false;
      if (!m.has_value()) { out += "{\"fn\":\"\"}"; continue; }
      auto &md = m->descriptor();
      out += "{\"fn\":\"" + esc(md.full_name()) + "\",\"fields\":[";
      for (std::size_t i = 0; i < md.fields().size(); ++i) out += (i ? "," : "") + meaning(*f, md, i);
      out += "]}";
    }
    std::cout << out << "]}]}" << std::endl;
  }
}
