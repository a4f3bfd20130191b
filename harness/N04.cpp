// N04: connections are made from the given adapter, to the resolved addresses in their order.
#include "client/channel/AsioClientTcpConnection.h"
#include "nworld.h"
using namespace nw;

static unsigned faults_left;
static unsigned failed_now; // faults since the last attempt: each may have cost one address
static bool fails(const char *) {
  if (!faults_left || !sx::any_bool("fails on the spot")) return false;
  faults_left--;
  failed_now++;
  W->fail();
  return true;
}
static void expect_name(std::string &s, const std::string &host, unsigned k) {
  s = host;
  if (k) { s += '/'; s += (char)('0' + k); }
}
namespace { struct Count final : IConnectionListener { unsigned errors = 0; void on_receive(const ser4cpp::rseq_t &) override {} void on_error(const std::string &) override { errors++; } }; }
HARNESS(n04_attempts) {
  static const char *const hosts[] = {"10.0.0.7", "device.example"};
  static const char *const adapters[] = {"", "10.0.0.1", "192.168.1.20"};
  const unsigned maxe = (unsigned)symx_param("endpoints", 3), rounds = (unsigned)symx_param("rounds", 2);
  World w;
  w.plain = true;
  std::string host = hosts[sx::pick("host", 2)], adapter = adapters[sx::pick("adapter", 3)];
  uint16_t port = (uint16_t)symx_concretize(sx::pick("port", 3));
  port = port == 0 ? 1 : port == 1 ? 502 : 65535;
  asio::stub::faults.fails = fails;
  w.conn = std::make_shared<AsioClientTcpConnection>(w.log, w.ex, Ipv4Endpoint(host, port), adapter);
  w.conn->set_listener(w.l);
  for (unsigned r = 0; r < rounds; r++) {
    faults_left = 0;
    unsigned first = w.n;
    w.send();
    w.settle();
    CHECK(w.ios->resolvers.front()->queries.size() == 1, "a send without a connection does not resolve the host");
    auto &q = w.ios->resolvers.front()->queries.front();
    CHECK(q.host == host, "another host than the given one is resolved");
    unsigned service = 0;
    for (char c : q.service) service = service * 10 + (unsigned)(c - '0');
    CHECK(service == port, "another port than the given one is resolved");
    unsigned n = sx::pick("addresses", maxe + 1), six = 0;
    if (n == 0) w.fail(); // asio never completes that way, the host has no address then
    for (unsigned k = 0; k < n; k++) if (sx::any_bool("other protocol")) six |= 1u << k;
    faults_left = (unsigned)symx_param("faults", 1);
    w.ios->resolvers.front()->resolved(n, six);
    unsigned at = 0, unusable = 0;
    bool ok = false;
    for (unsigned guard = 0; guard < 8 && !ok; guard++) {
      w.settle();
      auto &s = w.sock();
      if (s.connects.empty()) break;
      // addresses that cannot be reached from here are passed over, nothing else
      std::string name;
      for (;; at++) {
        CHECK(at < n, "a connection is attempted to something else than a resolved address");
        expect_name(name, host, at);
        if (s.host == name) break;
        bool impossible = !adapter.empty() && (six >> at & 1);
        CHECK(impossible || failed_now > 0, "a resolved address is not tried");
        if (!impossible) failed_now--;
        unusable++;
      }
      CHECK(s.port == port, "a connection is attempted to another port than the given one");
      CHECK(s.six == (bool)(six >> at & 1), "a socket of the other protocol is used");
      CHECK(adapter.empty() ? (s.bound.empty() || s.bound == "0.0.0.0") : s.bound == adapter, "a connection is not made from the given adapter");
      if (!adapter.empty()) COVER("from an adapter");
      failed_now = 0;
      ok = sx::any_bool("reachable");
      if (!ok) { w.fail(); s.established(asio::error::connection_refused); at++; }
      else { s.established(asio::error_code()); COVER("connected"); if (at > 0) COVER("connected to a later address"); }
    }
    faults_left = 0;
    w.settle();
    if (!ok) {
      if (at < n)
        for (unsigned k = at; k < n; k++) {
          bool impossible = !adapter.empty() && (six >> k & 1);
          CHECK(impossible || failed_now > 0, "a resolved address is not tried");
          if (!impossible) failed_now--;
        }
      CHECK(w.reported > w.buf[first].at, "a connection that cannot be made is not reported");
      COVER("no address reachable");
      if (n == 0) COVER("no address");
    } else {
      CHECK(w.reported < w.buf[first].at, "a connection that was made is reported as failed");
      auto &s = w.sock();
      CHECK(s.connected && s.writes.size() == 1, "the buffer is not transmitted on the new connection");
      // the connection is lost: the next one is made the same way
      w.fail();
      s.write_failed(asio::error::broken_pipe);
      w.settle();
    }
    failed_now = 0;
  }
  EXPECT("from an adapter");
  EXPECT("connected");
  EXPECT("connected to a later address");
  EXPECT("no address reachable");
  EXPECT("no address");
}
// many addresses, one of which or none can be reached; again and again
HARNESS(n04_many) {
  unsigned n = (unsigned)symx_param("addresses", 30), rounds = (unsigned)symx_param("rounds", 12);
  World w;
  w.plain = true;
  bool bound = sx::any_bool("adapter"), mixed = sx::any_bool("both protocols");
  unsigned where = sx::pick("reachable", 4) * (n / 3); // the last: none
  w.conn = std::make_shared<AsioClientTcpConnection>(w.log, w.ex, Ipv4Endpoint("device.example", 502), bound ? "10.0.0.1" : "");
  w.conn->set_listener(w.l);
  unsigned reports = 0;
  auto l = std::make_shared<Count>();
  w.conn->set_listener(l);
  for (unsigned r = 0; r < rounds; r++) {
    uint8_t b[3] = {1, 2, 3};
    w.conn->send(ser4cpp::rseq_t(b, 3));
    w.settle();
    CHECK(w.ios->resolvers.front()->queries.size() == 1, "a send without a connection does not resolve the host");
    unsigned six = 0, m = 0;
    bool ok = false;
    for (unsigned k = 0; k < n; k++) if (mixed && k % 3 == 1) six |= 1u << k;
    w.ios->resolvers.front()->resolved(n, six);
    for (unsigned at = 0; at < n && !ok; at++) {
      if (bound && (six >> at & 1)) continue; // cannot be reached from there
      while (!w.idle()) { w.strand().run_many(64); w.ios->run_one(); }
      auto &s = w.sock();
      CHECK(s.connects.size() == 1, "a resolved address is not tried");
      std::string name;
      expect_name(name, "device.example", at);
      CHECK(s.host == name && s.port == 502, "the resolved addresses are not tried in their order");
      CHECK(bound ? s.bound == "10.0.0.1" : (s.bound.empty() || s.bound == "0.0.0.0"), "a connection is not made from the given adapter");
      ok = at >= where;
      m++;
      s.established(ok ? asio::error_code() : asio::error_code(asio::error::connection_refused));
    }
    while (!w.idle()) { w.strand().run_many(64); w.ios->run_one(); }
    auto &s = w.sock();
    CHECK(s.connects.empty(), "a connection is attempted to something else than a resolved address");
    if (ok) {
      CHECK(l->errors == reports, "a connection that was made is reported as failed");
      CHECK(s.connected && s.writes.size() == 1, "the buffer is not transmitted on the new connection");
      s.write_failed(asio::error::broken_pipe);
      w.settle();
      COVER("connected");
    } else COVER("no address reachable");
    CHECK(l->errors == reports + 1, "a connection that cannot be made is not reported");
    reports = l->errors;
  }
  EXPECT("connected");
  EXPECT("no address reachable");
}
