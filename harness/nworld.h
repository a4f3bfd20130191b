// A connection over nondeterministic sockets: sends, completions, failures, closes and the queues in any order.
#pragma once
#include "symx.h"
#include "IConnectionListener.h"
#include "exe4cpp/asio/StrandExecutor.h"
#include "exe4cpp/asio/ThreadPool.h"
#include "logging/Logger.h"
#include "modbus/Ipv4Endpoint.h"
#include <vector>
using namespace modbus;

namespace nw {
enum Event { SEND, RUN, IO, RESOLVE, CONNECT, WRITE, READ, CLOSE, SHUT, NEV };
enum { M_SEND = 1, M_RUN = 2, M_IO = 4, M_RESOLVE = 8, M_CONNECT = 16, M_WRITE = 32, M_READ = 64, M_CLOSE = 128, M_SHUT = 256 };
const unsigned MAXB = 10, LEN = 3;
struct Buf { uint8_t b[LEN]; unsigned at; bool started, complete; };
struct World;
inline World *W;

struct Listener final : IConnectionListener {
  void on_receive(const ser4cpp::rseq_t &data) override;
  void on_error(const std::string &message) override;
};
struct World {
  std::shared_ptr<asio::io_service> ios = std::make_shared<asio::io_service>();
  std::shared_ptr<exe4cpp::StrandExecutor> ex = std::make_shared<exe4cpp::StrandExecutor>(ios);
  std::shared_ptr<Logger> log = std::make_shared<Logger>(std::make_shared<spdlog::logger>("n"));
  std::shared_ptr<Listener> l = std::make_shared<Listener>();
  std::shared_ptr<ITcpConnection> conn;
  exe4cpp::MockExecutor &strand() { return ios->strands.front()->queue; }
  asio::stub::Socket &sock() { return *ios->sockets.front(); }

  unsigned now = 1;                                    // counts what happens
  Buf buf[MAXB] = {};
  unsigned n = 0, limit = MAXB;
  unsigned failed = 0, ended = 0, reported = 0, closed = 0; // when it happened last
  unsigned unreported = 0;
  bool end_pending = false;                            // the connection has ended, which may not have been noticed yet
  bool asked_close = false, asked_shut = false, reenter = false;
  bool plain = false;                                  // only record
  // the wire: what is being transmitted
  int part = -1; unsigned off = 0, session = 0;
  int last_started = -1;
  // received
  uint8_t fed[64]; unsigned nfed = 0, ngot = 0, fed_session[64] = {}, dead = 0;
  unsigned last = NEV;

  World() { W = this; }
  ~World() { W = nullptr; }

  void send() {
    if (n >= limit || n >= MAXB) return;
    unsigned i = n++;
    uint8_t x[LEN] = {(uint8_t)(0xA0 + i), sx::any<uint8_t>("byte"), (uint8_t)(0xB0 + i)};
    memcpy(buf[i].b, x, LEN);
    buf[i].at = ++now;
    uint8_t *heap = new uint8_t[LEN];
    memcpy(heap, x, LEN);
    conn->send(ser4cpp::rseq_t(heap, LEN));
    memset(heap, 0, LEN);
    delete[] heap;
  }
  // was there a reason to lose what was sent at that time?
  bool lost(unsigned at) const { return reported > at || closed > at || asked_shut; }
  void fail() { failed = ++now; unreported++; }
  // one byte leaves on the given session of the socket
  void wire(unsigned s, uint8_t b) {
    if (s != session) {
      if (part >= 0) CHECK(lost(buf[part].at) || failed > buf[part].at || ended > buf[part].at || asked_close, "a transmission is cut short without a failure");
      session = s; part = -1; off = 0;
    }
    if (part < 0) {
      int i = b - 0xA0;
      CHECK(i >= 0 && i < (int)n, "something else than a given buffer is transmitted");
      CHECK(i > last_started, i == last_started ? "a buffer is transmitted twice" : "buffers are transmitted out of order");
      for (int k = last_started + 1; k < i; k++) CHECK(lost(buf[k].at), "a buffer is skipped");
      part = last_started = i;
      buf[i].started = true;
      off = 1;
      return;
    }
    CHECK(b == buf[part].b[off], "a buffer is modified, interrupted or cut short on the wire");
    if (++off == LEN) { buf[part].complete = true; part = -1; COVER("transmitted"); }
  }
  void transmit(asio::stub::Socket &s, size_t k) {
    asio::stub::Write w = s.writes.front();
    if (k > w.n - w.sent) k = w.n - w.sent;
    const uint8_t *p = s.transmit(k);
    for (size_t i = 0; i < k; i++) wire(s.session, p[i]);
    s.transmitted(k);
  }
  void feed(asio::stub::Socket &s) {
    uint8_t b = (uint8_t)nfed;
    fed_session[nfed] = s.session;
    fed[nfed++] = b;
    s.received(&b, 1);
  }
  void got(const uint8_t *b, size_t k) {
    for (size_t i = 0; i < k; i++) {
      unsigned at = b[i];
      CHECK(at < nfed && at >= ngot, "received bytes reach the listener twice, out of order or altered");
      for (unsigned j = ngot; j < at; j++) CHECK(fed_session[j] <= dead || asked_close, "received bytes do not reach the listener");
      CHECK(fed_session[at] > dead, "bytes of an earlier connection reach the listener after its failure");
      ngot = at + 1;
    }
    COVER("received");
  }
  void error() {
    now++;
    if (!plain && !unreported && !end_pending)
      for (unsigned i = 0; i < n; i++) CHECK(buf[i].at < failed || buf[i].at < ended || buf[i].at < reported || buf[i].complete || closed > buf[i].at, "an old failure ends a new transmission");
    unreported = 0;
    end_pending = false;
    reported = now;
    if (conn_session > dead) dead = conn_session;
    COVER("failure reported");
  }
  unsigned conn_session = 0; // established so far

  bool idle() { return strand().num_active() == 0 && ios->completions.empty(); }
  void settle() { for (unsigned k = 0; k < 64 && !idle(); k++) { strand().run_many(64); ios->run_one(); } }

  void step(unsigned events) {
    unsigned list[NEV], m = 0;
    for (unsigned e = 0; e < NEV; e++) if (events >> e & 1) list[m++] = e;
    unsigned e = list[sx::pick("event", m)];
    asio::stub::Socket &s = sock();
    switch (e) {
    case SEND: ASSUME(n < limit); send(); break;
    case RUN: ASSUME(strand().num_active() != 0); strand().run_one(); break;
    case IO: ASSUME(!ios->completions.empty()); ios->run_one(); break;
    case RESOLVE: ASSUME(!ios->resolvers.front()->queries.empty()); resolve(sx::pick("resolve", 2) == 0); break;
    case CONNECT: ASSUME(!s.connects.empty()); connect(sx::pick("connect", 2) == 0); break;
    case WRITE: {
      ASSUME(!s.writes.empty());
      unsigned k = sx::pick("write", 3);
      if (k == 2) { fail(); s.write_failed(asio::error::broken_pipe); }
      else transmit(s, k == 0 ? 100 : 1);
      break;
    }
    case READ: {
      ASSUME(!s.reads.empty());
      unsigned k = sx::pick("read", 3);
      if (k == 0) feed(s);
      else if (k == 1) { ended = ++now; end_pending = true; s.read_failed(asio::error::eof); } // the end of the connection itself need not be reported
      else { fail(); s.read_failed(asio::error::connection_reset); }
      break;
    }
    case CLOSE: ASSUME(last != CLOSE); close(); break;
    case SHUT: ASSUME(!asked_shut); asked_shut = true; conn->shutdown(); break;
    }
    last = e;
  }
  void resolve(bool ok) {
    auto *r = ios->resolvers.front();
    if (ok) r->resolved(1); else { fail(); r->failed(asio::error::host_not_found); }
  }
  void connect(bool ok) {
    end_pending = false;
    if (!ok) fail();
    sock().established(ok ? asio::error_code() : asio::error_code(asio::error::connection_refused));
    if (ok) conn_session = sock().session;
  }
  void close() {
    asked_close = true;
    conn->close();
    ex->post([this] { closed = ++now; if (conn_session > dead) dead = conn_session; });
  }
  // everything that is pending succeeds
  void drain() {
    for (unsigned k = 0; k < 40; k++) {
      settle();
      auto *r = ios->resolvers.empty() ? nullptr : ios->resolvers.front();
      if (r && !r->queries.empty()) resolve(true);
      else if (!sock().connects.empty()) connect(true);
      else if (!sock().writes.empty()) transmit(sock(), 1);
      else break;
    }
    settle();
  }
};
inline void Listener::on_receive(const ser4cpp::rseq_t &d) {
  std::vector<uint8_t> v;
  for (size_t i = 0; i < d.length(); i++) v.push_back(d[i]);
  W->got(v.data(), v.size());
  if (W->reenter && sx::any_bool("send on reception")) W->send();
}
inline void Listener::on_error(const std::string &) {
  W->error();
  if (W->reenter && sx::any_bool("send on error")) W->send();
}
} // namespace nw
