// The real AsioServer and its connections over nondeterministic sockets.
#pragma once
#include "symx.h"
#include "IConnectionListener.h"
#include "exe4cpp/asio/StrandExecutor.h"
#include "exe4cpp/asio/ThreadPool.h"
#include "logging/Logger.h"
#include "modbus/Ipv4Endpoint.h"
#include "server/channel/AsioServer.h"
#include "server/channel/AsioServerTcpConnection.h"
#include "server/channel/IServerConnectionListenerBuilder.h"
#include <vector>
using namespace modbus;

namespace sn {
enum Event { SEND, RUN, IO, WRITE, READ, CLOSE, ACCEPT, SHUT, NEV };
enum { M_SEND = 1, M_RUN = 2, M_IO = 4, M_WRITE = 8, M_READ = 16, M_CLOSE = 32, M_ACCEPT = 64, M_SHUT = 128 };
const unsigned MAXB = 8, LEN = 3, MAXC = 10;
struct Buf { uint8_t b[LEN]; bool complete; };
struct World;
inline World *W;

struct Conn {
  World *w = nullptr;
  asio::stub::Socket *s = nullptr;       // as accepted; may be gone
  unsigned id = 0;
  std::weak_ptr<ITcpConnection> c;
  Buf buf[MAXB] = {};
  unsigned n = 0;
  int part = -1, last_started = -1;
  unsigned off = 0;
  bool failed = false, asked_close = false;
  uint8_t fed[32]; unsigned nfed = 0, ngot = 0;
  asio::stub::Socket *sock() const;
  bool open() const { auto x = sock(); return x && x->opened; }
  void send();
  void wire(uint8_t b);
  void transmit(size_t k);
  void feed();
  void got(const ser4cpp::rseq_t &d);
};
struct Listener final : IConnectionListener {
  unsigned id;
  explicit Listener(unsigned i) : id(i) {}
  void on_receive(const ser4cpp::rseq_t &data) override;
  void on_error(const std::string &) override;
};
struct Builder final : IServerConnectionListenerBuilder {
  std::unique_ptr<IConnectionListener> build(std::weak_ptr<ITcpConnection> connection) override;
};
struct World {
  std::shared_ptr<asio::io_service> ios = std::make_shared<asio::io_service>();
  std::shared_ptr<exe4cpp::StrandExecutor> ex = std::make_shared<exe4cpp::StrandExecutor>(ios);
  std::shared_ptr<Logger> log = std::make_shared<Logger>(std::make_shared<spdlog::logger>("n"));
  std::shared_ptr<AsioServer> server;
  Conn conns[MAXC];
  unsigned nc = 0, built = 0;
  bool judge_bytes = false, asked_shut = false;
  exe4cpp::MockExecutor &strand() { return ios->strands.front()->queue; }
  asio::stub::Acceptor &acceptor() { return *ios->acceptors.front(); }
  explicit World(unsigned limit, unsigned connected) {
    W = this;
    server = std::make_shared<AsioServer>(log, ex, Ipv4Endpoint("0.0.0.0", 502), limit);
    server->start(std::make_shared<Builder>());
    settle();
    for (unsigned k = 0; k < connected; k++) { accept(true); settle(); }
  }
  ~World() { W = nullptr; }
  bool accepting() { return !acceptor().accepts.empty(); }
  // the listener of the k-th accepted connection is the k-th one built
  void accept(bool ok) {
    if (!ok) { acceptor().accepted(asio::error::connection_aborted); return; }
    Conn &x = conns[nc++];
    x.w = this;
    x.s = acceptor().accepted(asio::error_code());
    x.id = x.s->id;
  }
  bool idle() { return strand().num_active() == 0 && ios->completions.empty(); }
  void settle() {
    for (unsigned k = 0; k < 64 && !idle(); k++) { strand().run_many(64); ios->run_one(); }
    CHECK(idle(), "the queues never run dry");
  }
  void step(unsigned e) {
    unsigned which = 0;
    bool any = e == SEND || e == WRITE || e == READ || e == CLOSE;
    ASSUME(!any || nc);
    if (nc > 1 && any) which = sx::pick("connection", nc);
    Conn &x = conns[which];
    switch (e) {
    case SEND: ASSUME(!x.c.expired() && x.n < MAXB && x.n < (unsigned)symx_param("limit", 3)); x.send(); break;
    case RUN: ASSUME(strand().num_active() != 0); strand().run_one(); break;
    case IO: ASSUME(!ios->completions.empty()); ios->run_one(); break;
    case WRITE: {
      ASSUME(x.open() && !x.sock()->writes.empty());
      unsigned k = sx::pick("write", 3);
      if (k == 2) { x.failed = true; x.sock()->write_failed(asio::error::broken_pipe); }
      else x.transmit(k == 0 ? 100 : 1);
      break;
    }
    case READ: {
      ASSUME(x.open() && !x.sock()->reads.empty());
      unsigned k = sx::pick("read", 3);
      if (k == 0) x.feed();
      else { x.failed = true; x.sock()->read_failed(k == 1 ? asio::error_code(asio::error::eof) : asio::error_code(asio::error::connection_reset)); }
      break;
    }
    case CLOSE: { auto c = x.c.lock(); ASSUME(c && !x.asked_close); x.asked_close = true; c->close(); break; }
    case ACCEPT: { ASSUME(accepting() && nc < MAXC); accept(sx::pick("accept", 2) == 0); break; }
    case SHUT: ASSUME(!asked_shut); asked_shut = true; server->shutdown(); break;
    }
  }
  void drain() {
    for (unsigned k = 0; k < 60; k++) {
      settle();
      bool any = false;
      for (unsigned c = 0; c < nc && !any; c++) if (conns[c].open() && !conns[c].sock()->writes.empty()) { conns[c].transmit(1); any = true; }
      if (!any) break;
    }
    settle();
  }
};
inline asio::stub::Socket *Conn::sock() const {
  for (auto *x : w->ios->sockets) if (x == s && x->id == id) return s;
  return nullptr;
}
inline void Conn::send() {
  auto x = c.lock();
  if (!x || n >= MAXB) return;
  unsigned i = n++;
  uint8_t v[LEN] = {(uint8_t)(0xA0 + i), sx::any<uint8_t>("byte"), (uint8_t)(0xB0 + i)};
  memcpy(buf[i].b, v, LEN);
  uint8_t *heap = new uint8_t[LEN];
  memcpy(heap, v, LEN);
  x->send(ser4cpp::rseq_t(heap, LEN));
  memset(heap, 0, LEN);
  delete[] heap;
}
inline void Conn::wire(uint8_t b) {
  if (!w->judge_bytes) return;
  if (part < 0) {
    int i = b - 0xA0;
    CHECK(i >= 0 && i < (int)n, "something else than a given response is transmitted");
    CHECK(i > last_started, i == last_started ? "a response is transmitted twice" : "responses are transmitted out of order");
    CHECK(i == last_started + 1, "a response is skipped");
    part = last_started = i;
    off = 1;
    return;
  }
  CHECK(b == buf[part].b[off], "a response is modified, interrupted or cut short on the wire");
  if (++off == LEN) { buf[part].complete = true; part = -1; COVER("transmitted"); }
}
inline void Conn::transmit(size_t k) {
  asio::stub::Socket *x = sock();
  asio::stub::Write o = x->writes.front();
  if (k > o.n - o.sent) k = o.n - o.sent;
  const uint8_t *p = x->transmit(k);
  for (size_t i = 0; i < k; i++) wire(p[i]);
  x->transmitted(k);
}
inline void Conn::feed() {
  uint8_t b = (uint8_t)nfed;
  fed[nfed++] = b;
  sock()->received(&b, 1);
}
inline void Conn::got(const ser4cpp::rseq_t &d) {
  if (!w->judge_bytes) return;
  for (size_t i = 0; i < d.length(); i++) {
    CHECK(d[i] == ngot && ngot < nfed, "received bytes reach the listener twice, out of order, altered or on another connection");
    ngot++;
  }
  COVER("received");
}
inline void Listener::on_receive(const ser4cpp::rseq_t &d) {
  W->conns[id].got(d);
  if (symx_param("reply", 0) && sx::any_bool("reply")) W->conns[id].send();
}
inline void Listener::on_error(const std::string &) {}
inline std::unique_ptr<IConnectionListener> Builder::build(std::weak_ptr<ITcpConnection> c) {
  unsigned k = W->built++;
  W->conns[k].c = c;
  return std::unique_ptr<IConnectionListener>(new Listener(k));
}
} // namespace sn
