// <id> <op> <hex>...  ->  {"id":..,"ok":0|1,"y":[bytes]}
#include "cpp_lexical_emitter.hpp"
#include <cstdio>
#include <iostream>
#include <sstream>
#include <vector>
#include <unistd.h>
using namespace hpp_proto::protoc::cpp;
static std::string unhex(const std::string &s) {
  std::string r;
  if (s == "-") return r;
  for (std::size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((char)std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}
static void out(const std::string &id, bool ok, std::string_view y) {
  std::string s = "{\"id\":" + id + ",\"ok\":" + (ok ? "1" : "0") + ",\"y\":[";
  for (std::size_t i = 0; i < y.size(); ++i) s += (i ? "," : "") + std::to_string((unsigned char)y[i]);
  std::puts((s + "]}").c_str());
}
template <class E> static void res(const std::string &id, const E &e) { if (e.has_value()) out(id, true, e->view()); else out(id, false, ""); }
int main() {
  std::string l;
  while (std::getline(std::cin, l)) {
    std::istringstream is(l);
    std::string id, op, h;
    is >> id >> op;
    std::fprintf(stderr, "@%s\n", id.c_str());
    alarm(10);
    std::vector<std::string> x;
    while (is >> h) x.push_back(unhex(h));
    // exact copies, so that reading past the end is seen
    std::vector<std::vector<char>> own;
    std::vector<std::string_view> v;
    for (auto &s : x) own.emplace_back(s.begin(), s.end());
    for (auto &s : own) v.emplace_back(s.data(), s.size());
    if (op == "id") res(id, identifier::from_proto(v[0]));
    else if (op == "ns") res(id, identifier::from_protobuf_namespace(v[0]));
    else if (op == "app") out(id, true, identifier::from_proto(v[0])->append_word(*identifier::from_proto(v[1])).view());
    else if (op == "dis") out(id, true, identifier::from_proto(v[0])->disambiguated_with(*identifier::from_proto(v[1])).view());
    else if (op == "dot") res(id, qualified_name::from_dotted(v[0]));
    else if (op == "qn") res(id, qualified_name::from_proto(*qualified_name::from_dotted(v[0]), v[1]));
    else if (op == "fd") {
      auto r = v.size() > 1 ? file_descriptor_name::from_proto_file(v[0], v[1]) : file_descriptor_name::from_proto_file(v[0]);
      if (!r) out(id, false, "");
      else out(id, true, v[0].size() % 2 ? std::string(r->namespace_name().view()) : std::string(r->qualified_descriptor_name().view()));
    }
    else if (op == "str") out(id, true, string_literal_bytes(v[0]).view());
    else if (op == "com") out(id, true, comment_text(v[0]).view());
    else if (op == "inc") res(id, include_path::from_proto_file(v[1], v[0], v[2]));
    else if (op == "i32") res(id, numeric_literal::signed_integer(v[0], integer_width::bits32));
    else if (op == "i64") res(id, numeric_literal::signed_integer(v[0], integer_width::bits64));
    else if (op == "u32") res(id, numeric_literal::unsigned_integer(v[0], integer_width::bits32));
    else if (op == "u64") res(id, numeric_literal::unsigned_integer(v[0], integer_width::bits64));
    else if (op == "flt") res(id, numeric_literal::floating(v[0], true));
    else if (op == "dbl") res(id, numeric_literal::floating(v[0], false));
    else if (op == "bool") res(id, numeric_literal::boolean(v[0]));
    else { std::fprintf(stderr, "unknown op\n"); return 9; }
  }
}
