// Histories on two host messages with extensions.  Line: <id> <op>;<op>;...   (see gen/ext.py and spec/Ext.tla)
#include "drv.hpp"
#include <list>
namespace drv {
// extension storage by field number; entries of one number one after the other, as they are read and written
template <class X> void d_ext(W &w, const X &x) {
  std::map<std::uint32_t, Bytes> m;
  for (const auto &[n, d] : x.fields) {
    auto &b = m[n];
    for (auto c : d) b.push_back(std::byte(c));
  }
  w.open();
  for (auto &[n, b] : m) {
    w.open();
    w.num(n);
    w.bytes(b.data(), b.size());
    w.close();
  }
  w.close();
}
} // namespace drv
#include "vx_ext.hpp"
#include <hpp_proto/merge.hpp>
using namespace drv;
#if TID == 0
using Tr = hpp_proto::default_traits;
#elif TID == 1
using Tr = hpp_proto::stable_traits;
#elif TID == 2
using Tr = hpp_proto::pmr_traits;
#elif TID == 3
using Tr = hpp_proto::pmr_stable_traits;
#elif TID == 4
using Tr = hpp_proto::non_owning_traits;
#elif TID == 5
using Tr = hpp_proto::keep_unknown_fields<hpp_proto::stable_traits>;
#elif TID == 6
using Tr = hpp_proto::keep_unknown_fields<hpp_proto::non_owning_traits>;
#elif TID == 7
using Tr = hpp_proto::keep_unknown_fields<hpp_proto::pmr_stable_traits>;
#endif
constexpr bool with_mr = TID == 2 || TID == 3 || TID == 4 || TID == 6 || TID == 7;
using Host = vx::Host<Tr>;

template <class E> void dump_ext(W &w, const E &e) {
  if constexpr (!StrLike<decltype(e.value)> && requires { e.value.begin(); }) d_rep(w, e.value);
  else dv(w, e.value);
}
template <class E> void build_ext(Arena &ar, const V &v, E &e) {
  if constexpr (!StrLike<decltype(e.value)> && requires { e.value.begin(); }) b_rep(ar, v, e.value);
  else bv(ar, v, e.value);
}

struct History {
  std::pmr::monotonic_buffer_resource mr;
  Host h[2];
  std::list<Exact> inputs; // views may refer to what was decoded
  template <class F> auto with(F f) {
    if constexpr (with_mr) return f(hpp_proto::alloc_from(mr));
    else return f();
  }
  std::string post() {
    W w;
    w.s = "[";
    for (auto &x : h) dump(w, x);
    return w.s + "]";
  }
  std::string step(const std::string &op) {
    std::stringstream ss(op);
    std::string o;
    int i = 0, e = 0;
    ss >> o >> i;
    Host &m = h[i - 1];
    std::string ret = "[1]", rest;
    if (o == "set") {
      ss >> e >> rest;
      with_ext<Tr>(e, [&]<class X>() {
        Arena ar; // gone after the call: the host must not refer to it
        X x{};
        build_ext(ar, parseV(rest), x);
        ret = with([&](auto... opt) { return m.set_extension(x, opt...).ok(); }) ? "[1]" : "[0]";
      });
    } else if (o == "get") {
      ss >> e >> rest;
      with_ext<Tr>(e, [&]<class X>() {
        Arena ar;
        X x{};
        if (rest != "-") build_ext(ar, parseV(rest), x);
        const Host &c = m;
        bool ok = with([&](auto... opt) { return c.get_extension(x, opt...).ok(); });
        W w;
        if (ok) dump_ext(w, x);
        ret = ok ? "[1," + w.s + "]" : "[0]";
      });
    } else if (o == "has") {
      ss >> e;
      with_ext<Tr>(e, [&]<class X>() { ret = m.has_extension(X{}) ? "[1]" : "[0]"; });
    } else if (o == "dec") {
      ss >> rest;
      Bytes b = unhex(rest);
      inputs.emplace_back(b.data(), b.size());
      auto in = inputs.back().span();
      std::string form;
      ss >> form;
      bool ok;
      if (form == "K") { // two chunks
        std::array<std::span<const std::byte>, 2> c{in.first(in.size() / 2), in.subspan(in.size() / 2)};
        ok = with([&](auto... opt) { return hpp_proto::read_binpb(m, c, opt...).ok(); });
      } else
        ok = with([&](auto... opt) { return hpp_proto::read_binpb(m, in, opt...).ok(); });
      if (!ok) m = Host{};
      ret = ok ? "[1]" : "[0]";
    } else if (o == "enc") {
      Bytes b;
      bool ok = hpp_proto::write_binpb(m, b).ok();
      ret = ok ? "[1," + jbytes(b) + "]" : "[0]";
    } else {
      int j = 0;
      ss >> j;
      Host &n = h[j - 1];
      if (o == "copy") m = n;
      else if (o == "merge") with([&](auto... opt) { hpp_proto::merge(m, std::as_const(n), opt...); });
      else if (o == "mergem") {
        with([&](auto... opt) { hpp_proto::merge(m, std::move(n), opt...); });
        n = Host{};
      } else if (o == "eq") ret = m == n ? "[1]" : "[0]";
    }
    return ret;
  }
};

int main() {
  std::signal(SIGALRM, on_alarm);
  std::string line;
  while (std::getline(std::cin, line)) {
    auto sp = line.find(' ');
    std::string id = line.substr(0, sp);
    std::cerr << "@" << id << "\n";
    alarm(60);
    std::string out = "{\"id\":" + id + ",\"ev\":[";
    {
      auto H = std::make_unique<History>();
      std::stringstream ss(line.substr(sp + 1));
      std::string op;
      bool first = true;
      while (std::getline(ss, op, ';')) {
        std::string r = H->step(op);
        out += (first ? "" : ",") + ("{\"ret\":" + r) + ",\"post\":" + H->post() + "}";
        first = false;
      }
    }
    std::cout << out << "]}\n" << std::flush;
  }
}
