// Real calls over the loopback interface (the in-process transport of gRPC 1.51 loses the end of some server-streaming calls): a client and a service of hpp_proto::grpc, each with a program (spec/Rpc.tla).
//   rpc <id> <kind> <mode> <reqs> <rd> <wr> <end> <bulk> <absent>      reqs, wr: 0/1 per message, '-' for none
//   mode: c call(), a async_call with a function, r a reactor, m a reactor that uses the other overloads
#include "grpc_common.hpp"
#include <hpp_proto/grpc/client.hpp>
#include <condition_variable>
#include <mutex>
struct Prog {
  int k = 0, rd = 0;
  std::vector<int> reqs, wr;
  std::string end, mode;
};
struct Rec { // what was seen
  std::mutex mu;
  std::condition_variable cv;
  std::vector<long> got, sgot, wres;
  std::vector<long> stats;
  std::string message;
  int sdone = 0, handlers = 0;
  void add(std::vector<long> &v, long x) { std::scoped_lock l(mu); v.push_back(x); }
  void last(std::vector<long> &v, long x) { std::scoped_lock l(mu); v.back() = x; }
  void done(const grpc::Status &s) {
    std::scoped_lock l(mu);
    stats.push_back(code(s));
    cv.notify_all();
  }
};
static Prog P;
static std::shared_ptr<Rec> R;

template <class Method> struct Handler {
  using rpc_t = hpp_proto::grpc::ServerRPC<Method>;
  using token_t = hpp_proto::grpc::RequestToken<Method>;
  std::shared_ptr<Rec> rec = R;
  Prog p = P;
  int nw = 0;
  size_t nr = 0;
  explicit Handler(auto &, rpc_t &r, token_t t) requires(!Method::client_streaming) {
    { std::scoped_lock l(rec->mu); rec->handlers++; }
    rec->add(rec->sgot, read(t));
    step(r);
  }
  explicit Handler(auto &, rpc_t &r) requires Method::client_streaming {
    { std::scoped_lock l(rec->mu); rec->handlers++; }
    next(r);
  }
  Handler(const Handler &) = delete;
  long read(token_t &t) {
    Rep m;
    if (!t.get(m).ok()) return -9;
    return m == good(m.n) ? m.n : -8;
  }
  void next(rpc_t &r) {
    if constexpr (Method::client_streaming) {
      if (nr < size_t(p.rd)) r.start_read();
      else act(r, p.end, nw);
    }
  }
  bool good_at(size_t i) { return i >= p.wr.size() || p.wr[i]; }
  void step(rpc_t &r) {
    if constexpr (Method::server_streaming) {
      if (size_t(nw) < p.wr.size()) { act(r, good_at(size_t(nw)) ? (p.mode == "m" ? (nw % 2 ? "W3" : "W4") : (nw % 2 ? "W1" : "W0")) : "W5", nw); return; }
    }
    act(r, p.end, nw);
  }
  void on_read_ok(rpc_t &r, token_t t) {
    if constexpr (Method::client_streaming) {
      rec->add(rec->sgot, read(t));
      ++nr;
      if constexpr (Method::server_streaming) act(r, good_at(size_t(nw)) ? (p.mode == "m" ? "W2" : "W0") : "W5", nw);
      else next(r);
    }
  }
  bool on_read_eof(rpc_t &r) { act(r, p.end, nw); return true; }
  void on_write_ok(rpc_t &r) {
    if constexpr (Method::client_streaming) next(r);
    else step(r);
  }
  void on_done() { std::scoped_lock l(rec->mu); rec->sdone++; rec->cv.notify_all(); }
};
struct Service : hpp_proto::grpc::CallbackService<Service, S::_methods> {
  auto handle(S::Unary) -> Handler<S::Unary>;
  auto handle(S::Cs) -> Handler<S::Cs>;
  auto handle(S::Ss) -> Handler<S::Ss>;
  auto handle(S::Bidi) -> Handler<S::Bidi>;
};
struct Partial : hpp_proto::grpc::CallbackService<Partial, S::_methods> { // handles only some methods
  auto handle(S::Cs) -> Handler<S::Cs>;
  auto handle(S::Ss) -> Handler<S::Ss>;
};
using Stub = hpp_proto::grpc::Stub<S::_methods>;

static Rep request(size_t i) { return P.reqs[i] ? good(int(i) + 1) : bad(int(i) + 1); }
template <class Method> struct Client : hpp_proto::grpc::ClientCallbackReactor<Method> {
  std::shared_ptr<Rec> rec = R;
  size_t i = 0;
  bool closed = false;
  bool m = P.mode == "m";
  void take() {
    Rep r;
    grpc::Status s;
    if (m) { hpp_proto::pb_context ctx{}; s = this->get_response(r, ctx); }
    else s = this->get_response(r);
    rec->add(rec->got, !s.ok() ? -1 : r == good(r.n) ? r.n : -8);
  }
  void push() {
    if constexpr (Method::client_streaming) {
      while (i < P.reqs.size()) {
        Rep q = request(i++);
        grpc::Status s;
        grpc::WriteOptions wo;
        bool last = m && i == P.reqs.size();
        rec->add(rec->wres, 0); // before the call: when it succeeds, the next callback can be running already
        closed = last;
        if (last) s = this->write_last(q, wo);
        else s = m ? this->write(q, wo, hpp_proto::chunked_mode) : i % 2 ? this->write(q) : this->write(q, hpp_proto::contiguous_mode);
        if (s.ok()) return;
        closed = false;
        rec->last(rec->wres, s.error_code());
      }
      if (!closed) { closed = true; this->write_done(); }
    }
  }
  void run(Stub &stub, grpc::ClientContext &ctx) {
    if constexpr (Method::client_streaming) stub.template async_call<Method>(ctx, this);
    else stub.template async_call<Method>(ctx, request(0), this);
    // read first, write later or the other way round, with a hold or without
    if constexpr (Method::server_streaming) { if (m) this->add_hold(); this->start_read(); }
    push();
    this->start_call();
    if constexpr (Method::server_streaming) { if (m) this->remove_hold(); }
  }
  void readdone(bool ok) {
    if constexpr (Method::server_streaming) {
      if (!ok) return;
      take();
      this->start_read();
    }
  }
  void writedone(bool ok) { if (ok && !closed) push(); }
  void finish(const grpc::Status &s) {
    if constexpr (!Method::server_streaming) { if (s.ok()) take(); }
    rec->done(s);
  }
};
struct UnaryC : Client<S::Unary> { void OnDone(const grpc::Status &s) override { finish(s); } };
struct CsC : Client<S::Cs> {
  void OnDone(const grpc::Status &s) override { finish(s); }
  void OnWriteDone(bool ok) override { writedone(ok); }
};
struct SsC : Client<S::Ss> {
  void OnDone(const grpc::Status &s) override { finish(s); }
  void OnReadDone(bool ok) override { readdone(ok); }
};
struct BidiC : Client<S::Bidi> {
  void OnDone(const grpc::Status &s) override { finish(s); }
  void OnReadDone(bool ok) override { readdone(ok); }
  void OnWriteDone(bool ok) override { writedone(ok); }
};
template <class C> void react(Stub &stub) {
  auto rec = R;
  grpc::ClientContext ctx;
  C c;
  c.run(stub, ctx);
  std::unique_lock l(rec->mu);
  rec->cv.wait(l, [&] { return !rec->stats.empty(); });
}
static std::vector<int> bits(const std::string &s) { std::vector<int> v; if (s != "-") for (char c : s) v.push_back(c - '0'); return v; }
static std::string list(const std::vector<long> &v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + std::to_string(v[i]);
  return o + "]";
}
template <class Svc> struct Server {
  Svc svc;
  std::unique_ptr<grpc::Server> server;
  std::shared_ptr<grpc::Channel> ch;
  grpc::StubOptions opts;
  std::unique_ptr<Stub> stub;
  Server() {
    grpc::ServerBuilder b;
    b.RegisterService(&svc);
    int port = 0;
    b.AddListeningPort("127.0.0.1:0", grpc::InsecureServerCredentials(), &port);
    server = b.BuildAndStart();
    ch = grpc::CreateChannel("127.0.0.1:" + std::to_string(port), grpc::InsecureChannelCredentials());
    stub = std::make_unique<Stub>(ch, opts);
  }
  ~Server() { server->Shutdown(); }
};
int main() {
  signal(SIGALRM, on_alarm);
  std::vector<std::pair<std::string, std::shared_ptr<Rec>>> all;
  {
    Server<Service> full;
    Server<Partial> part;
    std::string line;
    while (std::getline(std::cin, line)) {
      std::stringstream ss(line);
      std::string op, id, reqs, wr;
      Prog p;
      size_t bulk;
      bool absent;
      ss >> op >> id >> p.k >> p.mode >> reqs >> p.rd >> wr >> p.end >> bulk >> absent;
      std::cerr << "@" << id << "\n";
      current_case = line;
      alarm(30);
      p.reqs = bits(reqs);
      p.wr = bits(wr);
      BULK = bulk;
      P = p;
      auto rec = R = std::make_shared<Rec>();
      Stub &stub = absent ? *part.stub : *full.stub;
      if (p.mode == "c" || p.mode == "a") {
        grpc::ClientContext ctx;
        Rep reply, req = request(0);
        reply.n = 77;
        grpc::Status st;
        if (p.mode == "c") {
          st = p.rd ? stub.call<S::Unary>(ctx, req, reply, hpp_proto::chunked_mode) : stub.call<S::Unary>(ctx, req, reply);
          rec->done(st);
        } else {
          auto f = [rec, &st](const grpc::Status &s) { st = s; rec->done(s); };
          if (p.rd) stub.async_call<S::Unary>(ctx, req, reply, f, hpp_proto::recursion_limit<50>);
          else stub.async_call<S::Unary>(ctx, req, reply, f);
          std::unique_lock l(rec->mu);
          rec->cv.wait(l, [&] { return !rec->stats.empty(); });
        }
        if (st.ok()) rec->got.push_back(reply == good(reply.n) ? reply.n : -8);
      } else if (p.k == 0) react<UnaryC>(stub);
      else if (p.k == 1) react<CsC>(stub);
      else if (p.k == 2) react<SsC>(stub);
      else react<BidiC>(stub);
      { // the server's side is over, too
        std::unique_lock l(rec->mu);
        rec->cv.wait_for(l, std::chrono::seconds(10), [&] { return rec->sdone == rec->handlers; });
      }
      all.emplace_back(id, rec);
      alarm(0);
    }
  }
  for (auto &[id, r] : all) {
    std::scoped_lock l(r->mu);
    std::cout << "{\"id\":" << id << ",\"stats\":" << list(r->stats) << ",\"got\":" << list(r->got) << ",\"sgot\":" << list(r->sgot) << ",\"wres\":" << list(r->wres)
              << ",\"over\":" << (r->sdone == r->handlers) << ",\"handlers\":" << r->handlers << "}\n";
  }
}
