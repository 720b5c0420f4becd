// Runs server-side calls of hpp_proto::grpc against a stream the driver plays, event by event.
//   call <id> <kind> <full> ev ev ..                  ev = name:acts:ret   acts = A.B.. or -
//   race <id> <kind> <full> <rounds> ev ev .. | a | b
#include "grpc_common.hpp"
#include <barrier>
namespace grpc::testing {
class ServerContextTestSpouse { // a friend of the contexts, for tests
public:
  static void cancel(CallbackServerContext &c) { static_cast<ServerContextBase &>(c).marked_cancelled_.store(true); }
};
} // namespace grpc::testing
struct Ev { std::string e; std::vector<std::string> acts; bool ret = true; };
using Log = std::vector<std::string>;
static thread_local Log *LOG = nullptr; // the log of the event that runs on this thread
static void put(std::string s) { if (LOG) LOG->push_back("[" + s + "]"); }
static std::string call(const char *n, long a) { return std::string("\"") + n + "\"," + std::to_string(a); }

struct World;
static thread_local const Ev *EV = nullptr; // what the handler is to do
struct Env { int kind; bool full; std::atomic<int> finishes{0}; World *w = nullptr; };

template <class Method, bool Full> struct Handler {
  using rpc_t = hpp_proto::grpc::ServerRPC<Method>;
  using token_t = hpp_proto::grpc::RequestToken<Method>;
  std::atomic<int> nw{0};
  static inline thread_local Handler *last = nullptr;
  rpc_t *rpc;
  Handler(Env &, rpc_t &r, token_t t) requires(!Method::client_streaming) : rpc(&r) {
    last = this;
    put(call("req", number(t.get())));
    Rep m;
    if (!t.get(m).ok() || m != good(1)) put(call("req", -9));
    doit();
  }
  Handler(Env &, rpc_t &r) requires Method::client_streaming : rpc(&r) { last = this; doit(); }
  ~Handler() { put("\"gone\""); }
  void doit() {
    if (!EV) return;
    for (auto &a : EV->acts) { int n = nw; act(*rpc, a, n); nw = n; }
  }
  void on_read_ok(rpc_t &r, token_t t) {
    long n = number(t.get());
    Rep m;
    if (&r != rpc || !t.get(m).ok() || m.n != n) n = -9;
    put(call("rok", n));
    doit();
  }
  bool on_read_eof(rpc_t &) requires Full { put("\"reof\""); doit(); return EV->ret; }
  bool on_read_cancel(rpc_t &) requires Full { put("\"rcancel\""); doit(); return EV->ret; }
  void on_write_ok(rpc_t &) { put("\"wok\""); doit(); }
  bool on_write_error(rpc_t &) requires Full { put("\"werr\""); doit(); return EV->ret; }
  void on_done() requires Full { put("\"ondone\""); }
  void on_cancel() requires Full { put("\"oncancel\""); doit(); }
  void on_send_initial_metadata_done(bool ok) requires Full { put(call("meta", ok)); }
};

// the other end: the stream of each kind of call
struct World {
  Env env;
  grpc::CallbackServerContext ctx;
  ByteBuffer resp, req;
  ByteBuffer *reading = nullptr;
  const ByteBuffer *writing = nullptr;
  long writing_n = 0;
  long reply_n = 0;
  void finish(const grpc::Status &s) {
    env.finishes.fetch_add(1, std::memory_order_relaxed);
    if (env.kind < 2 && s.ok()) {
      long n = number(&resp);
      if (n > 0) { reply_n = n; put(call("reply", n) + ",0"); return; }
    }
    put(call("finish", code(s)));
  }
  void read(ByteBuffer *b) { reading = b; put("\"read\""); }
  void write(const ByteBuffer *b) { writing = b; writing_n = number(b); put(call("write", writing_n)); }
  void last(const ByteBuffer *b, const grpc::Status &s) { env.finishes.fetch_add(1, std::memory_order_relaxed); writing = b; writing_n = number(b); put(call("last", writing_n) + "," + std::to_string(code(s))); }
  void steady() { // what is being sent must not change before it has been
    if (writing && number(writing) != writing_n) put("\"changed\"");
    if (reply_n && number(&resp) != reply_n) put("\"changed\"");
  }
};
template <class Base, class Reactor> struct StreamOf : Base {
  World &w;
  Reactor *r;
  StreamOf(World &w_, Reactor *r_) : w(w_), r(r_) {}
  void Finish(grpc::Status s) override { w.finish(s); }
  void SendInitialMetadata() override {}
  grpc::internal::ServerReactor *reactor() override { return nullptr; }
  void CallOnDone() override {}
  void bind() { this->BindReactor(r); }
};
struct UnaryStream : StreamOf<grpc::ServerCallbackUnary, grpc::ServerUnaryReactor> {
  using StreamOf::StreamOf;
};
struct CsStream : StreamOf<grpc::ServerCallbackReader<ByteBuffer>, grpc::ServerReadReactor<ByteBuffer>> {
  using StreamOf::StreamOf;
  void Read(ByteBuffer *b) override { w.read(b); }
};
struct SsStream : StreamOf<grpc::ServerCallbackWriter<ByteBuffer>, grpc::ServerWriteReactor<ByteBuffer>> {
  using StreamOf::StreamOf;
  void Write(const ByteBuffer *b, grpc::WriteOptions) override { w.write(b); }
  void WriteAndFinish(const ByteBuffer *b, grpc::WriteOptions, grpc::Status s) override { w.last(b, s); }
};
struct BidiStream : StreamOf<grpc::ServerCallbackReaderWriter<ByteBuffer, ByteBuffer>, grpc::ServerBidiReactor<ByteBuffer, ByteBuffer>> {
  using StreamOf::StreamOf;
  void Read(ByteBuffer *b) override { w.read(b); }
  void Write(const ByteBuffer *b, grpc::WriteOptions) override { w.write(b); }
  void WriteAndFinish(const ByteBuffer *b, grpc::WriteOptions, grpc::Status s) override { w.last(b, s); }
};

struct CallBase {
  virtual ~CallBase() = default;
  virtual void run(const Ev &e, Log *log) = 0;
  World w;
};
template <class Method, bool Full, class Stream> struct Call : CallBase {
  using H = Handler<Method, Full>;
  using R = hpp_proto::grpc::ServerReactor<Method, H>;
  R *r = nullptr;
  H *h = nullptr;
  std::unique_ptr<Stream> st;
  int nr = 0;
  ~Call() override { if (r) { LOG = nullptr; r->OnDone(); } }
  void run(const Ev &e, Log *log) override {
    LOG = log;
    EV = &e;
    if (e.e == "ctor") {
      w.req = bytes(good(1));
      if constexpr (!Method::client_streaming) r = new R(&w.ctx, &w.req, &w.resp, w.env);
      else r = new R(&w.ctx, &w.resp, w.env);
      h = H::last;
      st = std::make_unique<Stream>(w, r);
      st->bind();
    } else if (e.e == "rok") {
      if constexpr (Method::client_streaming) {
        *w.reading = bytes(good(++nr));
        w.reading = nullptr;
        r->OnReadDone(true);
      }
    } else if (e.e == "rfail") {
      if constexpr (Method::client_streaming) { w.reading->Clear(); w.reading = nullptr; r->OnReadDone(false); }
    } else if (e.e == "wok" || e.e == "wfail") {
      w.steady();
      if constexpr (Method::server_streaming) { w.writing = nullptr; r->OnWriteDone(e.e == "wok"); }
    } else if (e.e == "cancel") {
      grpc::testing::ServerContextTestSpouse::cancel(w.ctx);
      r->OnCancel();
    } else if (e.e == "later") h->doit();
    else if (e.e == "meta") r->OnSendInitialMetadataDone(e.ret);
    else if (e.e == "done") { w.steady(); auto *x = r; r = nullptr; x->OnDone(); }
    LOG = nullptr;
    EV = nullptr;
  }
};
template <bool F> std::unique_ptr<CallBase> make(int k) {
  switch (k) {
  case 0: return std::make_unique<Call<S::Unary, F, UnaryStream>>();
  case 1: return std::make_unique<Call<S::Cs, F, CsStream>>();
  case 2: return std::make_unique<Call<S::Ss, F, SsStream>>();
  default: return std::make_unique<Call<S::Bidi, F, BidiStream>>();
  }
}
static std::unique_ptr<CallBase> make(int k, bool full) {
  auto c = full ? make<true>(k) : make<false>(k);
  c->w.env.kind = k;
  c->w.env.full = full;
  return c;
}
static Ev parse(const std::string &t) {
  Ev e;
  std::stringstream ss(t);
  std::string a, b, c;
  std::getline(ss, e.e, ':'); std::getline(ss, b, ':'); std::getline(ss, c, ':');
  e.ret = c == "1";
  if (b != "-") { std::stringstream s2(b); while (std::getline(s2, a, '.')) e.acts.push_back(a); }
  return e;
}
static std::string json(const Ev &e, const Log *l) {
  std::string o = "{\"e\":\"" + e.e + "\",\"acts\":[";
  for (size_t i = 0; i < e.acts.size(); ++i) o += (i ? ",\"" : "\"") + e.acts[i] + "\"";
  o += std::string("],\"ret\":") + (e.ret ? "true" : "false");
  if (l) {
    o += ",\"log\":[";
    for (size_t i = 0; i < l->size(); ++i) o += (i ? "," : "") + (*l)[i];
    o += "]";
  }
  return o + "}";
}
int main() {
  signal(SIGALRM, on_alarm);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::stringstream ss(line);
    std::string op, id, t;
    int k, full, rounds = 1;
    ss >> op >> id >> k >> full;
    if (op == "race") ss >> rounds;
    std::cerr << "@" << id << "\n";
    current_case = line;
    alarm(60);
    std::vector<Ev> evs, ab;
    bool second = false;
    while (ss >> t) {
      if (t == "|") { second = true; continue; }
      (second ? ab : evs).push_back(parse(t));
    }
    std::string o;
    if (op == "call") {
      auto c = make(k, full);
      for (auto &e : evs) {
        Log l;
        c->run(e, &l);
        o += (o.empty() ? "" : ",") + json(e, &l);
      }
      std::cout << "{\"id\":" << id << ",\"op\":\"call\",\"k\":" << k << ",\"full\":" << (full ? "true" : "false") << ",\"ev\":[" << o << "]}\n";
    } else {
      int lo = 1 << 20, hi = 0;
      std::unique_ptr<CallBase> cur;
      std::barrier bar(3);
      auto side = [&](int x) {
        for (int i = 0; i < rounds; ++i) {
          bar.arrive_and_wait();
          for (volatile int d = 0; d < (i * (x ? 7 : 3)) % 40; d = d + 1) {}
          cur->run(ab[size_t(x)], nullptr);
          bar.arrive_and_wait();
        }
      };
      std::thread a(side, 0), b(side, 1);
      for (int i = 0; i < rounds; ++i) {
        cur = make(k, full);
        for (auto &e : evs) cur->run(e, nullptr);
        bar.arrive_and_wait();
        bar.arrive_and_wait();
        int n = cur->w.env.finishes.load();
        lo = std::min(lo, n);
        hi = std::max(hi, n);
        cur.reset();
      }
      a.join();
      b.join();
      for (auto &e : evs) o += (o.empty() ? "" : ",") + json(e, nullptr);
      std::cout << "{\"id\":" << id << ",\"op\":\"race\",\"k\":" << k << ",\"full\":" << (full ? "true" : "false") << ",\"ev\":[" << o << "],\"a\":" << json(ab[0], nullptr)
                << ",\"b\":" << json(ab[1], nullptr) << ",\"min\":" << lo << ",\"max\":" << hi << "}\n";
    }
    std::cout.flush();
    alarm(0);
  }
}
