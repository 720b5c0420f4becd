// Histories on two Any messages.  Line: <id> <op>;<op>;...   (see spec/Any.tla)
#include "drv.hpp"
#include <list>
#include "vt_any.hpp"
using namespace drv;
#if TID == 0
using Tr = hpp_proto::default_traits;
#elif TID == 1
using Tr = hpp_proto::stable_traits;
#elif TID == 2
using Tr = hpp_proto::pmr_traits;
#elif TID == 3
using Tr = hpp_proto::pmr_stable_traits;
#elif TID == 4
using Tr = hpp_proto::non_owning_traits;
#elif TID == 5
using Tr = hpp_proto::keep_unknown_fields<hpp_proto::stable_traits>;
#elif TID == 6
using Tr = hpp_proto::keep_unknown_fields<hpp_proto::non_owning_traits>;
#elif TID == 7
using Tr = hpp_proto::keep_unknown_fields<hpp_proto::pmr_stable_traits>;
#endif
constexpr bool with_mr = TID == 2 || TID == 3 || TID == 4 || TID == 6 || TID == 7;
constexpr bool views = TID == 4 || TID == 6;
using Any = google::protobuf::Any<Tr>;

struct History {
  std::pmr::monotonic_buffer_resource mr;
  Arena ar;
  Any a[2];
  std::list<Exact> inputs;
  template <class F> auto with(F f) {
    if constexpr (with_mr) return f(hpp_proto::alloc_from(mr));
    else return f();
  }
  std::string post() {
    W w;
    w.s = "[";
    for (auto &x : a) dump(w, x);
    return w.s + "]";
  }
  V hexv(const std::string &s) {
    V v;
    for (auto b : unhex(s)) { V x; x.leaf = true; x.n = long(b); v.k.push_back(x); }
    return v;
  }
  std::string step(const std::string &op) {
    std::stringstream ss(op);
    std::string o, rest, how;
    int i = 0, t = 0;
    ss >> o >> i;
    if (o == "name") {
      auto n = name_of<Tr>(i);
      return "[1," + jbytes(n) + "]";
    }
    Any &x = a[i - 1];
    std::string ret = "[1]";
    if (o == "pack") {
      ss >> t >> how >> rest;
      with_type<Tr>(t, [&]<class M>() {
        Arena tmp; // gone after the call: the Any must not refer to it
        M m{};
        build(tmp, parseV(rest), m);
        bool ok;
        if constexpr (!views) {
          if (how == "plain") ok = hpp_proto::pack_any(x, m).ok();
          else ok = with([&](auto... opt) { return hpp_proto::pack_any(x, m, opt...).ok(); });
        } else
          ok = with([&](auto... opt) { return hpp_proto::pack_any(x, m, opt...).ok(); });
        ret = ok ? "[1]" : "[0]";
      });
    } else if (o == "unpack") {
      ss >> t >> how >> rest;
      with_type<Tr>(t, [&]<class M>() {
        Arena tmp;
        const Any &c = x;
        W w;
        bool ok;
        if (how == "new") {
          auto r = with([&](auto... opt) { return hpp_proto::unpack_any<M>(c, opt...); });
          ok = r.has_value();
          if (ok) dump(w, *r);
        } else {
          M m{};
          if (rest != "-") build(tmp, parseV(rest), m);
          ok = with([&](auto... opt) { return hpp_proto::unpack_any(c, m, opt...).ok(); });
          if (ok) dump(w, m);
        }
        ret = ok ? "[1," + w.s + "]" : "[0]";
      });
    } else if (o == "url" || o == "val") {
      ss >> rest;
      if (o == "url") bv(ar, hexv(rest), x.type_url);
      else bv(ar, hexv(rest), x.value);
    } else if (o == "copy") {
      ss >> t;
      if (t != i) x = a[t - 1];
    } else if (o == "enc") {
      Bytes b;
      bool ok = hpp_proto::write_binpb(x, b).ok();
      ret = ok ? "[1," + jbytes(b) + "]" : "[0]";
    } else if (o == "dec") {
      ss >> rest;
      Bytes b = unhex(rest);
      inputs.emplace_back(b.data(), b.size());
      bool ok = with([&](auto... opt) { return hpp_proto::read_binpb(x, inputs.back().span(), opt...).ok(); });
      if (!ok) x = Any{};
      ret = ok ? "[1]" : "[0]";
    }
    return ret;
  }
};

int main() {
  std::signal(SIGALRM, on_alarm);
  std::string line;
  while (std::getline(std::cin, line)) {
    auto sp = line.find(' ');
    std::string id = line.substr(0, sp);
    std::cerr << "@" << id << "\n";
    alarm(60);
    std::string out = "{\"id\":" + id + ",\"ev\":[";
    {
      auto H = std::make_unique<History>();
      std::stringstream ss(line.substr(sp + 1));
      std::string op;
      bool first = true;
      while (std::getline(ss, op, ';')) {
        std::string r = H->step(op);
        out += (first ? "" : ",") + ("{\"ret\":" + r) + ",\"post\":" + H->post() + "}";
        first = false;
      }
    }
    std::cout << out << "]}\n" << std::flush;
  }
}
