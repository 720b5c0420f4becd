// Replays codec operations read from stdin on the real library and records what happened as ndjson on stdout.
//   dec <id> <tid> <type> <type id> <lim> <hex> <form,form,..> [<hex to pre-populate with>]
//   enc <id> <tid> <type> <type id> <value> <form,form,..>
//   mrg <id> <tid> <type> <type id> <value> <value> <form,..>
#include "codec.hpp"
using namespace drv;
static std::vector<std::string> words(const std::string &l) {
  std::stringstream ss(l);
  std::vector<std::string> w;
  std::string t;
  while (ss >> t) w.push_back(t);
  return w;
}
static std::vector<std::string> split(const std::string &l, char c) {
  std::stringstream ss(l);
  std::vector<std::string> w;
  std::string t;
  while (std::getline(ss, t, c)) w.push_back(t);
  return w;
}
static std::string q(const std::string &s) {
  std::string o = "\"";
  for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += (unsigned char)c < 32 ? ' ' : c; }
  return o + '"';
}
int main(int argc, char **argv) {
  signal(SIGALRM, on_alarm);
  rlimit rl{1ul << 26, 1ul << 26};
  (void)rl;
  std::string line;
  auto expand = [](const std::string &f, size_t n) {
    std::vector<std::string> out;
    if (f == "XA") { for (size_t i = 0; i <= n; ++i) out.push_back("X" + std::to_string(i)); }
    else if (f == "KA") { for (size_t i = 1; i <= std::min<size_t>(n, 20); ++i) out.push_back("K" + std::to_string(i)); }
    else out.push_back(f);
    return out;
  };
  while (std::getline(std::cin, line)) {
    auto w = words(line);
    if (w.empty()) continue;
    current_case = line;
    std::cerr << "@" << w[1] << "\n"; // last line names the case that crashed
    alarm(20);
    int tid = std::stoi(w[2]);
    auto &ops = registry()[tid];
    bool keep = tid >= 5;
    if (w[0] == "dec") {
      auto &tab = w[5] == "-1" ? ops.dec : ops.declim;
      auto it = tab.find(w[3]);
      if (it == tab.end()) { std::cerr << "no op for " << line << "\n"; return 3; }
      Bytes in = unhex(w[6]);
      Bytes pre;
      bool has_pre = w.size() > 8;
      if (has_pre) pre = unhex(w[8]);
      std::vector<std::pair<std::string, std::string>> seen; // result -> forms
      for (auto &f0 : split(w[7], ','))
        for (auto &f : expand(f0, in.size())) {
          Res r = it->second(in, f, has_pre ? &pre : nullptr, std::stoi(w[5]));
          std::string res = "[" + std::to_string(r.ok) + "," + std::to_string(r.ok == 0 ? r.ec : 0) + "," + r.v + "]";
          if (r.ok == 2) res = "[2,0,[]]";
          auto s = std::find_if(seen.begin(), seen.end(), [&](auto &p) { return p.first == res; });
          if (s == seen.end()) seen.emplace_back(res, f + (r.ok == 2 ? "!" + r.ex : ""));
          else if (s->second.size() < 300) s->second += "," + f;
        }
      std::string res, forms;
      for (auto &[a, b] : seen) {
        if (!res.empty()) res += ",", forms += ",";
        res += a;
        forms += q(b);
      }
      std::cout << "{\"id\":" << w[1] << ",\"op\":\"dec\",\"tid\":" << tid << ",\"ty\":" << w[4] << ",\"keep\":" << (keep ? "true" : "false")
                << ",\"lim\":" << (w[5] == "-1" || w[5] == "1000" ? "100" : w[5]) << ",\"b\":" << jbytes(in) << ",\"res\":[" << res << "],\"forms\":[" << forms << "]}\n";
    } else if (w[0] == "mem") { // one record per form; an optional last word pre-populates
      auto it = ops.mem.find(w[3]);
      if (it == ops.mem.end()) { std::cerr << "no op for " << line << "\n"; return 3; }
      Bytes in = unhex(w[5]);
      std::string o;
      for (auto &f : split(w[6], ','))
        o += (o.empty() ? "" : ",") + ("{\"form\":" + q(f) + "," + it->second(in, f, w.size() > 7 ? w[7] : "") + "}");
      std::cout << "{\"id\":" << w[1] << ",\"op\":\"mem\",\"tid\":" << tid << ",\"ty\":" << w[4] << ",\"keep\":" << (keep ? "true" : "false") << ",\"b\":" << jbytes(in)
                << ",\"runs\":[" << o << "]}\n";
    } else if (w[0] == "enc") {
      auto it = ops.enc.find(w[3]);
      if (it == ops.enc.end()) { std::cerr << "no op for " << line << "\n"; return 3; }
      std::cout << "{\"id\":" << w[1] << ",\"op\":\"enc\",\"tid\":" << tid << ",\"ty\":" << w[4] << ",\"v\":" << w[5] << ","
                << it->second(parseV(w[5]), split(w[6], ',')) << "}\n";
    } else if (w[0] == "enl") {
      auto it = ops.enclim.find(w[3]);
      if (it == ops.enclim.end()) { std::cerr << "no op for " << line << "\n"; return 3; }
      std::cout << "{\"id\":" << w[1] << ",\"op\":\"enl\",\"tid\":" << tid << ",\"ty\":" << w[4] << ",\"lim\":" << (w[5] == "1000" ? "100" : w[5])
                << ",\"v\":" << w[6] << "," << it->second(parseV(w[6]), std::stoi(w[5])) << "}\n";
    } else if (w[0] == "mrg") {
      auto it = ops.merge.find(w[3]);
      if (it == ops.merge.end()) { std::cerr << "no op for " << line << "\n"; return 3; }
      std::cout << "{\"id\":" << w[1] << ",\"op\":\"mrg\",\"tid\":" << tid << ",\"ty\":" << w[4] << ",\"keep\":" << (keep ? "true" : "false") << ",\"v\":" << w[5]
                << ",\"w\":" << w[6] << "," << it->second(parseV(w[5]), parseV(w[6]), split(w[7], ',')) << "}\n";
    }
    std::cout.flush();
    alarm(0);
  }
  return 0;
}
