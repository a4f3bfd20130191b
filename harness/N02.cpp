// N02: the TCP server connection transmits every response completely; S05 shares the world.
#include "msgs.h"
#include "svnet.h"
using namespace sn;

static unsigned list(unsigned *l, unsigned events) {
  unsigned m = 0;
  for (unsigned e = 0; e < NEV; e++) if (events >> e & 1) l[m++] = e;
  return m;
}
HARNESS(n02_history) {
  unsigned steps = (unsigned)symx_param("steps", 4), l[NEV];
  bool eager = symx_param("eager", 0) != 0;
  World w(5, (unsigned)symx_param("conns", 1));
  w.judge_bytes = true;
  for (unsigned k = 0; k < (unsigned)symx_param("sent", 0); k++) w.conns[0].send();
  unsigned m = list(l, M_SEND | M_WRITE | M_READ | M_CLOSE | (eager ? 0u : (unsigned)(M_RUN | M_IO)));
  for (unsigned k = 0; k < steps; k++) {
    w.step(l[sx::pick("event", m)]);
    if (eager) w.settle();
  }
  w.drain();
  for (unsigned c = 0; c < w.nc; c++) {
    Conn &x = w.conns[c];
    for (unsigned i = 0; i < x.n; i++) CHECK(x.buf[i].complete || x.failed || x.asked_close, "a response is not transmitted although nothing failed");
    CHECK(!x.failed || !x.sock()|| !x.sock()->opened, "a failed connection is not closed");
    CHECK(!x.asked_close || !x.sock() || !x.sock()->opened, "a closed connection stays open");
    if (!x.failed && !x.asked_close) {
      CHECK(x.sock() && x.sock()->opened, "a connection is closed although nothing failed");
      CHECK(!x.sock()->reads.empty(), "a connection does not read");
      x.feed();
      w.settle();
      CHECK(x.ngot == x.nfed, "received bytes do not reach the listener");
    } else COVER("ended");
  }
  unsigned open = 0;
  for (unsigned c = 0; c < w.nc; c++) open += !w.conns[c].failed && !w.conns[c].asked_close;
  CHECK(w.server->get_num_connections() == open, "a connection that has ended is not deregistered exactly once");
  EXPECT("transmitted");
  EXPECT("received");
  EXPECT("ended");
}
// large reads, responses of any length, and many of them waiting
struct Taker final : IConnectionListener {
  std::vector<uint8_t> got;
  void on_receive(const ser4cpp::rseq_t &d) override { for (size_t i = 0; i < d.length(); i++) got.push_back(d[i]); }
  void on_error(const std::string &) override {}
};
static std::weak_ptr<ITcpConnection> made;
static Taker *taker;
struct Takers final : IServerConnectionListenerBuilder { std::unique_ptr<IConnectionListener> build(std::weak_ptr<ITcpConnection> c) override { made = c; taker = new Taker; return std::unique_ptr<IConnectionListener>(taker); } };
HARNESS(n02_large) {
  auto ios = std::make_shared<asio::io_service>();
  auto ex = std::make_shared<exe4cpp::StrandExecutor>(ios);
  auto server = std::make_shared<AsioServer>(std::make_shared<Logger>(std::make_shared<spdlog::logger>("n")), ex, Ipv4Endpoint("0.0.0.0", 502), 3);
  server->start(std::make_shared<Takers>());
  auto settle = [&] { for (bool any = true; any;) { auto &q = ios->strands.front()->queue; any = q.num_active() || !ios->completions.empty(); if (q.num_active()) q.run_one(); else ios->run_one(); } };
  settle();
  asio::stub::Socket *s = ios->acceptors.front()->accepted(asio::error_code());
  settle();
  static const unsigned N[] = {1, 2, 127, 128, 255, 256, 257, 260, 1000, 4096};
  unsigned n = N[sx::pick("size", 10)];
  Bytes in(n);
  in.symbolic("received");
  for (unsigned at = 0; at < n;) { // as many reads as the buffer of the connection takes
    CHECK(!s->reads.empty() && s->room() > 0, "a connection does not read");
    unsigned k = s->room() < n - at ? (unsigned)s->room() : n - at;
    s->received(in.p + at, k);
    at += k;
    settle();
  }
  CHECK(taker->got.size() == n && same(taker->got.data(), in.p, n), "received bytes do not reach the listener, or altered");
  // as many responses as that, one of them of that length
  unsigned many = n < 300 ? n : 300, long_one = sx::pick("which", 2) ? many - 1 : 0;
  Bytes out(n);
  out.symbolic("sent");
  auto c = made.lock();
  CHECK(c != nullptr, "the connection is gone");
  for (unsigned i = 0; i < many; i++) {
    if (i == long_one) c->send(out.r());
    else { uint8_t b[2] = {(uint8_t)i, (uint8_t)(i >> 8)}; c->send(ser4cpp::rseq_t(b, 2)); }
  }
  settle();
  std::vector<uint8_t> wire;
  while (!s->writes.empty()) {
    auto &w = s->writes.front();
    size_t k = w.n - w.sent;
    if (k > 100 && w.sent == 0) k = 100; // in two parts
    const uint8_t *p = s->transmit(k);
    for (size_t i = 0; i < k; i++) wire.push_back(p[i]);
    s->transmitted(k);
    settle();
  }
  CHECK(wire.size() == 2 * (many - 1) + n, "a response is not transmitted completely");
  size_t at = 0;
  bool ok = true;
  for (unsigned i = 0; i < many; i++) {
    if (i == long_one) { ok = ok & same(&wire[at], out.p, n); at += n; }
    else { ok = ok & (wire[at] == (uint8_t)i) & (wire[at + 1] == (uint8_t)(i >> 8)); at += 2; }
  }
  CHECK(ok, "a response is modified, interrupted or out of order on the wire");
  COVER("large");
  c.reset();
  server->shutdown();
  settle();
  EXPECT("large");
}
// more than a thousand reads and responses on one connection
namespace { struct Ear final : IConnectionListener {
  unsigned got = 0; uint8_t last = 0;
  void on_receive(const ser4cpp::rseq_t &d) override { got += (unsigned)d.length(); if (d.length()) last = d[d.length() - 1]; }
  void on_error(const std::string &) override {}
};
Ear *ear;
std::weak_ptr<ITcpConnection> wire_of;
struct Ears final : IServerConnectionListenerBuilder { std::unique_ptr<IConnectionListener> build(std::weak_ptr<ITcpConnection> c) override { wire_of = c; ear = new Ear; return std::unique_ptr<IConnectionListener>(ear); } };
}
HARNESS(n02_long) {
  unsigned n = (unsigned)symx_param("n", 1100), ahead = 1 + 3 * sx::pick("responses at once", 2);
  uint8_t d = sx::any<uint8_t>("data");
  auto ios = std::make_shared<asio::io_service>();
  auto ex = std::make_shared<exe4cpp::StrandExecutor>(ios);
  auto server = std::make_shared<AsioServer>(std::make_shared<Logger>(std::make_shared<spdlog::logger>("n")), ex, Ipv4Endpoint("0.0.0.0", 502), 3);
  server->start(std::make_shared<Ears>());
  auto settle = [&] { for (bool any = true; any;) { auto &q = ios->strands.front()->queue; any = q.num_active() || !ios->completions.empty(); if (q.num_active()) q.run_one(); else ios->run_one(); } };
  settle();
  asio::stub::Socket *s = ios->acceptors.front()->accepted(asio::error_code());
  settle();
  for (unsigned i = 0; i < n; i++) {
    CHECK(s->reads.size() == 1, "a connection does not read");
    uint8_t x = (uint8_t)(d + i);
    s->received(&x, 1);
    settle();
    CHECK(ear->got == i + 1 && ear->last == x, "received bytes do not reach the listener, or altered");
    auto c = wire_of.lock();
    CHECK(c != nullptr, "the connection is gone");
    for (unsigned k = 0; k < ahead; k++) { uint8_t b[3] = {(uint8_t)i, (uint8_t)k, d}; c->send(ser4cpp::rseq_t(b, 3)); }
    c.reset();
    settle();
    for (unsigned k = 0; k < ahead; k++) {
      CHECK(s->writes.size() == 1 && s->writes.front().n == 3, "a response is not transmitted although nothing failed");
      const uint8_t *p = s->transmit(3);
      CHECK(p[0] == (uint8_t)i && p[1] == k && p[2] == d, "a response is modified, interrupted or out of order on the wire");
      s->transmitted(3);
      settle();
    }
    CHECK(s->writes.empty(), "a response is transmitted twice");
  }
  CHECK(server->get_num_connections() == 1, "a connection is closed although nothing failed");
  COVER("all");
  server->shutdown();
  settle();
  EXPECT("all");
}
