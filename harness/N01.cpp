// N01: the TCP client connection transmits exactly what it was given.
#include "client/channel/AsioClientTcpConnection.h"
#include "msgs.h"
#include "nworld.h"
using namespace nw;

static unsigned faults_left;
static bool fails(const char *) {
  if (!faults_left || !sx::any_bool("fails on the spot")) return false;
  faults_left--;
  W->fail();
  return true;
}
static void begin(World &w) {
  faults_left = 0;
  asio::stub::faults.fails = fails;
  w.conn = std::make_shared<AsioClientTcpConnection>(w.log, w.ex, Ipv4Endpoint("device", 502), symx_param("adapter", 0) ? "10.0.0.1" : "");
  w.conn->set_listener(w.l);
  w.reenter = symx_param("reenter", 0) != 0;
  w.limit = (unsigned)symx_param("limit", 3);
  unsigned pre = (unsigned)symx_param("pre", 0);
  // 1: resolving, 2: connecting, 3: connected and writing, 4: connected, one buffer has been transmitted
  if (pre >= 1) w.send();
  if (pre >= 2) { w.resolve(true); w.settle(); }
  if (pre >= 3) { w.connect(true); w.settle(); }
  if (pre >= 4) { while (!w.sock().writes.empty()) { w.transmit(w.sock(), 100); w.settle(); } }
}
static void finish(World &w) {
  w.drain();
  for (unsigned i = 0; i < w.n; i++) CHECK(w.buf[i].complete || w.lost(w.buf[i].at), "a buffer is not transmitted although nothing failed");
  CHECK(!w.failed || w.reported > w.failed || w.closed > w.failed || w.asked_shut, "a failure is not reported");
  if (w.asked_shut) return;
  // whatever happened: a later send is transmitted, on a new connection if necessary
  w.limit = MAXB;
  bool reenter = w.reenter;
  w.reenter = false;
  w.send();
  w.drain();
  CHECK(w.buf[w.n - 1].complete, "after a failure a later send does not establish a new connection");
  CHECK(!w.sock().reads.empty(), "an established connection does not read");
  if (!w.sock().reads.empty()) {
    unsigned before = w.ngot;
    w.feed(w.sock());
    w.settle();
    CHECK(w.ngot == before + 1 || w.ngot == w.nfed, "received bytes do not reach the listener");
    CHECK(w.ngot == w.nfed, "received bytes do not reach the listener");
  }
  w.reenter = reenter;
}
HARNESS(n01_history) {
  unsigned steps = (unsigned)symx_param("steps", 4);
  World w;
  begin(w);
  for (unsigned k = 0; k < steps; k++) w.step(M_SEND | M_RUN | M_IO | M_RESOLVE | M_CONNECT | M_WRITE | M_READ | M_CLOSE | (symx_param("shut", 0) ? (unsigned)M_SHUT : 0));
  finish(w);
  if (symx_param("pre", 0) > 1) EXPECT("transmitted");
}
// the queues run dry after every event: longer histories
HARNESS(n01_eager) {
  unsigned steps = (unsigned)symx_param("steps", 6);
  World w;
  begin(w);
  for (unsigned k = 0; k < steps; k++) {
    w.step(M_SEND | M_RESOLVE | M_CONNECT | M_WRITE | M_READ | M_CLOSE);
    w.settle();
  }
  finish(w);
  EXPECT("transmitted");
}
// failures on the spot: address, open, bind
HARNESS(n01_sync) {
  unsigned steps = (unsigned)symx_param("steps", 4);
  World w;
  begin(w);
  faults_left = (unsigned)symx_param("faults", 2);
  for (unsigned k = 0; k < steps; k++) w.step(M_SEND | M_RUN | M_IO | M_RESOLVE | M_CONNECT | M_CLOSE);
  faults_left = 0;
  finish(w);
  EXPECT("transmitted");
  EXPECT("failure reported");
}
// large reads, buffers of any length, and many of them waiting
struct Taker final : IConnectionListener {
  std::vector<uint8_t> got;
  unsigned errors = 0;
  void on_receive(const ser4cpp::rseq_t &d) override { for (size_t i = 0; i < d.length(); i++) got.push_back(d[i]); }
  void on_error(const std::string &) override { errors++; }
};
HARNESS(n01_large) {
  auto ios = std::make_shared<asio::io_service>();
  auto ex = std::make_shared<exe4cpp::StrandExecutor>(ios);
  auto taker = std::make_shared<Taker>();
  auto c = std::make_shared<AsioClientTcpConnection>(std::make_shared<Logger>(std::make_shared<spdlog::logger>("n")), ex, Ipv4Endpoint("device", 502), "");
  c->set_listener(taker);
  auto settle = [&] { for (bool any = true; any;) { auto &q = ios->strands.front()->queue; any = q.num_active() || !ios->completions.empty(); if (q.num_active()) q.run_one(); else ios->run_one(); } };
  static const unsigned N[] = {1, 2, 127, 128, 255, 256, 257, 260, 1000, 4096};
  unsigned n = N[sx::pick("size", 10)], many = n < 300 ? n : 300, long_one = sx::pick("which", 2) ? many - 1 : 0;
  bool before = sx::any_bool("before the connection is established");
  Bytes out(n);
  out.symbolic("sent");
  asio::stub::Socket *s = nullptr;
  auto connect = [&] {
    settle();
    ios->resolvers.front()->resolved(1);
    settle();
    s = ios->sockets.front();
    s->established(asio::error_code());
    settle();
  };
  auto give = [&](unsigned i) {
    if (i == long_one) c->send(out.r());
    else { uint8_t b[2] = {(uint8_t)i, (uint8_t)(i >> 8)}; c->send(ser4cpp::rseq_t(b, 2)); }
  };
  for (unsigned i = 0; i < many; i++) { give(i); if (i == 0 && !before) connect(); }
  if (before) connect();
  settle();
  std::vector<uint8_t> wire;
  while (!s->writes.empty()) {
    auto &w = s->writes.front();
    size_t k = w.n - w.sent;
    if (k > 100 && w.sent == 0) k = 100;
    const uint8_t *p = s->transmit(k);
    for (size_t i = 0; i < k; i++) wire.push_back(p[i]);
    s->transmitted(k);
    settle();
  }
  CHECK(wire.size() == 2 * (many - 1) + n, "a buffer is not transmitted completely");
  size_t at = 0;
  bool ok = true;
  for (unsigned i = 0; i < many; i++) {
    if (i == long_one) { ok = ok & same(&wire[at], out.p, n); at += n; }
    else { ok = ok & (wire[at] == (uint8_t)i) & (wire[at + 1] == (uint8_t)(i >> 8)); at += 2; }
  }
  CHECK(ok, "a buffer is modified, interrupted or out of order on the wire");
  Bytes in(n);
  in.symbolic("received");
  for (unsigned at = 0; at < n;) {
    CHECK(!s->reads.empty() && s->room() > 0, "an established connection does not read");
    unsigned k = s->room() < n - at ? (unsigned)s->room() : n - at;
    s->received(in.p + at, k);
    at += k;
    settle();
  }
  CHECK(taker->got.size() == n && same(taker->got.data(), in.p, n), "received bytes do not reach the listener, or altered");
  CHECK(taker->errors == 0, "a failure is reported although nothing failed");
  COVER("large");
  c->shutdown();
  settle();
  EXPECT("large");
}
// connections are made and lost more than a thousand times
namespace { struct Ear final : IConnectionListener {
  unsigned errors = 0, got = 0; uint8_t last = 0;
  void on_receive(const ser4cpp::rseq_t &d) override { got += (unsigned)d.length(); if (d.length()) last = d[d.length() - 1]; }
  void on_error(const std::string &) override { errors++; }
}; }
HARNESS(n01_long) {
  unsigned n = (unsigned)symx_param("n", 1100), how = sx::pick("how it ends", 8);
  uint8_t d = sx::any<uint8_t>("data");
  auto ios = std::make_shared<asio::io_service>();
  auto ex = std::make_shared<exe4cpp::StrandExecutor>(ios);
  auto ear = std::make_shared<Ear>();
  auto c = std::make_shared<AsioClientTcpConnection>(std::make_shared<Logger>(std::make_shared<spdlog::logger>("n")), ex, Ipv4Endpoint("device", 502), "");
  c->set_listener(ear);
  auto settle = [&] { for (bool any = true; any;) { auto &q = ios->strands.front()->queue; any = q.num_active() || !ios->completions.empty(); if (q.num_active()) q.run_one(); else ios->run_one(); } };
  auto give = [&](unsigned i) { uint8_t b[3] = {(uint8_t)i, (uint8_t)(i >> 8), d}; c->send(ser4cpp::rseq_t(b, 3)); settle(); };
  auto take = [&](unsigned i) {
    asio::stub::Socket *s = ios->sockets.front();
    CHECK(s->connected && s->writes.size() == 1 && s->writes.front().n == 3, "after a failure a later send does not establish a new connection");
    const uint8_t *p = s->transmit(3);
    CHECK(p[0] == (uint8_t)i && p[1] == (uint8_t)(i >> 8) && p[2] == d, "a buffer is modified, interrupted or out of order on the wire");
    s->transmitted(3);
    settle();
  };
  // how: 7: the connection stays
  bool up = false;
  for (unsigned i = 0; i < n; i++) {
    unsigned o = how == 6 ? i % 6 : how, errors = ear->errors;
    give(i);
    asio::stub::Socket *s = ios->sockets.front();
    if (!up) {
      CHECK(!ios->resolvers.empty() && ios->resolvers.front()->queries.size() == 1, "after a failure a later send does not establish a new connection");
      if (o == 0) ios->resolvers.front()->failed(asio::error::host_not_found); else ios->resolvers.front()->resolved(1);
      settle();
      if (o == 0) { CHECK(ear->errors == errors + 1, "a failure is not reported exactly once"); continue; }
      CHECK(s->connects.size() == 1, "after a failure a later send does not establish a new connection");
      s->established(o == 1 ? asio::error_code(asio::error::connection_refused) : asio::error_code());
      settle();
      if (o == 1) { CHECK(ear->errors == errors + 1, "a failure is not reported exactly once"); continue; }
      up = true;
    }
    if (o == 2) { s->write_failed(asio::error::broken_pipe); settle(); up = false; CHECK(ear->errors == errors + 1, "a failure is not reported exactly once"); continue; }
    take(i);
    CHECK(s->reads.size() == 1, "an established connection does not read");
    unsigned got = ear->got;
    uint8_t b = (uint8_t)(d + i);
    s->received(&b, 1);
    settle();
    CHECK(ear->got == got + 1 && ear->last == b, "received bytes do not reach the listener, or altered");
    if (o == 3) { s->read_failed(asio::error::connection_reset); settle(); up = false; CHECK(ear->errors == errors + 1, "a failure is not reported exactly once"); }
    if (o == 4) { s->read_failed(asio::error::eof); settle(); up = false; }
    if (o == 5) { c->close(); settle(); up = false; }
  }
  COVER("all");
  c->shutdown();
  settle();
  EXPECT("all");
}
