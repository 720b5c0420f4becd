// what the gRPC drivers share: the messages, and everything a handler can call by name (spec/Server.tla)
#pragma once
#include "drv.hpp"
#include <grp.service.hpp>
#include <hpp_proto/grpc/server.hpp>
#include <atomic>
#include <thread>
using namespace drv;
using grpc::ByteBuffer;
using Rep = grp::Msg<hpp_proto::default_traits>;
namespace S = grp::Svc;

static std::atomic<size_t> BULK{0}; // makes messages that long
static Rep good(int n) {
  Rep m;
  m.n = n;
  m.pad.resize(size_t(n % 3) * 40 + BULK * size_t(n % 2 + 1) / 2, std::byte(n));
  if (BULK) for (size_t i = 0; i < BULK / 16; ++i) m.many.push_back(i * 0x9e3779b97f4a7c15u + size_t(n));
  return m;
}
static Rep bad(int n) {
  Rep m; m.n = n;
  Rep *p = &m;
  for (int i = 0; i < 130; ++i) { p->child.emplace(); p = &*p->child; }
  return m;
}
static ByteBuffer bytes(const Rep &m) {
  std::vector<std::byte> b;
  (void)hpp_proto::write_binpb(m, b);
  std::vector<grpc::Slice> sl; // in small slices
  for (size_t i = 0; i < b.size(); i += 7) sl.emplace_back(b.data() + i, std::min<size_t>(7, b.size() - i));
  return ByteBuffer(sl.data(), sl.size());
}
static ByteBuffer junk() { grpc::Slice s("\x08"); return ByteBuffer(&s, 1); }
static long number(const ByteBuffer *b) {
  if (!b) return -1;
  Rep m;
  if (!b->Valid() || !hpp_proto::grpc::read_binpb(m, *b).ok()) return -2;
  return m == good(m.n) ? m.n : -3;
}
static const grpc::Status Five{grpc::StatusCode::NOT_FOUND, "five", "details"};
static long code(const grpc::Status &s) {
  if (s.error_code() == 5 && (s.error_message() != "five" || s.error_details() != "details")) return 500;
  return s.error_code();
}


template <class Rpc> void act(Rpc &rpc, const std::string &a, int &nw) {
  constexpr bool reads = requires { rpc.start_read(); };
  constexpr bool writes = requires { rpc.write(good(1)); };
  grpc::WriteOptions wo;
  wo.set_no_compression();
  if (a == "R") { if constexpr (reads) rpc.start_read(); }
  else if (a[0] == 'W') {
    if constexpr (writes) {
      int n = ++nw;
      if (a == "W0") rpc.write(good(n));
      if (a == "W1") rpc.write(good(n), wo);
      if (a == "W2") rpc.write(good(n), hpp_proto::chunked_mode);
      if (a == "W3") rpc.write(good(n), wo, hpp_proto::contiguous_mode);
      if (a == "W4") rpc.write(bytes(good(n)));
      if (a == "W7") rpc.write(bytes(good(n)), wo);
      if (a == "W5") rpc.write(bad(n));
      if (a == "W6") rpc.write(bad(n), wo);
    }
  } else if (a == "F0") rpc.finish(grpc::Status::OK);
  else if (a == "F5") rpc.finish(Five);
  else {
    int n = ++nw;
    if (a == "G0") rpc.finish(good(n));
    if (a == "G1") rpc.finish(good(n), hpp_proto::chunked_mode);
    if (a == "Gb") rpc.finish(bad(n));
    if (a == "Y0") rpc.finish(bytes(good(n)));
    if (a == "Yx") rpc.finish(junk());
    if constexpr (!writes) {
      if (a == "Y5") rpc.finish(bytes(good(n)), Five);
      if constexpr (!reads) {
        if (a == "G2") rpc.finish(good(n), Five);
        if (a == "G3") rpc.finish(good(n), grpc::Status{}, hpp_proto::contiguous_mode);
        if (a == "Gc") rpc.finish(bad(n), grpc::Status{});
      }
    } else {
      if (a == "Y5") rpc.finish(bytes(good(n)), wo, Five);
      if (a == "G4") rpc.finish(good(n), wo);
      if (a == "G5") rpc.finish(good(n), wo, Five);
      if (a == "G6") rpc.finish(good(n), wo, grpc::Status{}, hpp_proto::contiguous_mode);
      if (a == "G7") rpc.finish(good(n), wo, hpp_proto::adaptive_mode);
      if (a == "Gd") rpc.finish(bad(n), wo, Five);
    }
  }
}

