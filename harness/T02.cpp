// T02: what the library creates lives until it is shut down, and no longer.
#include "symx.h"
#include "exe4cpp/asio/StrandExecutor.h"
#include "exe4cpp/asio/ThreadPool.h"
#include "logging/Logger.h"
#include "modbus/IModbusManager.h"
#include "modbus/Ipv4Endpoint.h"
#include "modbus/client/IClientChannel.h"
#include "modbus/client/IClientSession.h"
#include "modbus/client/IScheduledRequest.h"
#include "modbus/messages/ReadHoldingRegistersRequest.h"
#include "modbus/messages/ReadHoldingRegistersResponse.h"
#include "modbus/server/IServerChannel.h"
#include "modbus/server/IServerSession.h"
#include "modbus/server/db/InMemoryDatabase.h"
using namespace modbus;
using dur = exe4cpp::duration_t;

static std::shared_ptr<Logger> logger() { return std::make_shared<Logger>(std::make_shared<spdlog::logger>("m", std::make_shared<spdlog::sinks::sink>())); }
static int tokens; // what the user's handlers hold
struct Token { Token() { tokens++; } ~Token() { tokens--; } };

struct World {
  std::unique_ptr<IModbusManager> m = IModbusManager::create(logger(), 1);
  asio::io_service *io = asio::io_service::all().back();
  bool asked = false; // the shutdown of the manager
  asio::stub::Socket *sock() { return io->sockets.empty() ? nullptr : io->sockets.front(); }
  exe4cpp::MockExecutor *queue() {
    for (auto *s : io->strands) { s->queue.check_for_expired_timers(); if (s->queue.num_active()) return &s->queue; }
    return nullptr;
  }
  bool run_one() {
    if (auto *q = queue()) { q->run_one(); return true; }
    return io->run_one();
  }
  void settle() { for (unsigned k = 0; k < 200 && run_one(); k++) {} }
  bool next_timer() {
    for (auto *s : io->strands) if (s->queue.num_pending_timers()) return s->queue.advance_to_next_timer();
    return false;
  }
  void manager() { asked = true; m->shutdown(); }
  // the operations of the network that are still pending come to their end
  void network() {
    for (auto *r : io->resolvers) if (!r->queries.empty()) { r->failed(asio::error::host_not_found); break; }
  }
};

// ---- the client
struct Client {
  World w;
  std::shared_ptr<IClientChannel> c;
  std::shared_ptr<IClientSession> s[3];
  std::shared_ptr<IScheduledRequest> r[3];
  std::weak_ptr<IClientChannel> wc;
  std::weak_ptr<IClientSession> ws[3];
  std::weak_ptr<IScheduledRequest> wr[3];
  unsigned of[3] = {}, ns = 0, nr = 0, sends = 0, polls[3] = {}, session_down = 0; // bit set
  bool down = false; // the shutdown of the channel has been asked for
  Client() {
    c = w.m->create_client_tcp_channel("c", Ipv4Endpoint("device", 502));
    wc = c;
  }
  void session(bool release) {
    ws[ns] = s[ns] = c->create_session(UnitIdentifier(1), dur(100));
    CHECK(down || s[ns], "a running channel does not create a session");
    if (release) s[ns].reset();
    ns++;
  }
  ReadHoldingRegistersRequest reading() { return ReadHoldingRegistersRequest{Address(1), 1}; }
  void schedule(unsigned k, bool release) {
    auto t = std::make_shared<Token>();
    unsigned i = nr++;
    of[i] = k;
    wr[i] = r[i] = s[k]->schedule_request(reading(), dur(300), [this, i, t](const Expected<ReadHoldingRegistersResponse> &) { polls[i]++; });
    if (release) r[i].reset();
  }
  void send(unsigned k) {
    auto t = std::make_shared<Token>();
    sends++;
    s[k]->send_request(reading(), [t](const Expected<ReadHoldingRegistersResponse> &) {});
  }
  bool progress(unsigned how) { // the network gets on; how: 0 well, 1 badly
    if (w.io->sockets.empty()) return false;
    auto *so = w.sock();
    auto *re = w.io->resolvers.empty() ? nullptr : w.io->resolvers.front();
    if (re && !re->queries.empty()) { if (how) re->failed(asio::error::host_not_found); else re->resolved(1); }
    else if (!so->connects.empty()) so->established(how ? asio::error_code(asio::error::connection_refused) : asio::error_code());
    else if (!so->writes.empty()) {
      if (how) so->write_failed(asio::error::broken_pipe);
      else {
        const uint8_t *p = so->transmit(12);
        uint8_t b[11] = {p[0], p[1], 0, 0, 0, 5, p[6], 3, 2, 1, 2};
        so->transmitted(12);
        memcpy(answer, b, 11);
        answers = true;
      }
    }
    else if (!so->reads.empty()) {
      if (how) so->read_failed(asio::error::eof);
      else { if (!answers) return false; answers = false; so->received(answer, 11); }
    }
    else return false;
    return true;
  }
  uint8_t answer[11]; bool answers = false;
  void alive() {
    if (!down) {
      CHECK(!wc.expired(), "a channel is gone before its shutdown");
      for (unsigned i = 0; i < ns; i++) CHECK(!ws[i].expired(), "a session is gone before the shutdown of its channel");
      for (unsigned i = 0; i < nr; i++) CHECK((session_down >> of[i] & 1) || !wr[i].expired(), "a scheduled request is gone before the shutdown");
    }
  }
  void end() {
    // requests that were released go on polling
    if (!down) {
      unsigned before[3];
      w.settle();
      for (unsigned i = 0; i < nr; i++) before[i] = polls[i];
      for (unsigned k = 0; k < 14; k++) { while (progress(0)) w.settle(); if (!w.next_timer()) break; w.settle(); }
      for (unsigned i = 0; i < nr; i++) if (!(session_down >> of[i] & 1)) { CHECK(polls[i] >= before[i] + 2, "a scheduled request does not go on after its release"); COVER("polls"); }
      alive();
    }
    if (!w.asked) w.manager();
    w.settle();
    c.reset();
    for (unsigned i = 0; i < 3; i++) { s[i].reset(); r[i].reset(); }
    w.settle();
    w.network();
    w.settle();
    CHECK(wc.expired(), "a channel outlives its shutdown");
    for (unsigned i = 0; i < ns; i++) CHECK(ws[i].expired(), "a session outlives its shutdown");
    for (unsigned i = 0; i < nr; i++) CHECK(wr[i].expired(), "a scheduled request outlives its shutdown");
    CHECK(tokens == 0, "a handler outlives the shutdown");
    CHECK(w.io->sockets.empty(), "a socket outlives the shutdown");
    CHECK(w.io->strands.empty(), "an executor outlives the shutdown");
    if (nr) COVER("scheduled");
    if (sends) COVER("sent");
    w.m.reset();
    CHECK(exe4cpp::ThreadPool::live() == 0, "the threads outlive the manager");
  }
};
HARNESS(t02_client) {
  unsigned steps = (unsigned)symx_param("steps", 4), last = 99;
  Client x;
  unsigned pre = (unsigned)symx_param("pre", 0); // 1: a session; 2: a scheduled request as well; 3: it is being polled
  if (pre >= 1) { x.session(false); x.w.settle(); }
  if (pre >= 2) { x.schedule(0, false); x.w.settle(); }
  if (pre >= 3) { x.progress(0); x.w.settle(); x.progress(0); x.w.settle(); }
  for (unsigned k = 0; k < steps; k++) {
    unsigned e = sx::pick("event", 10);
    switch (e) {
    case 0: ASSUME(x.ns < 2 && x.c); x.session(sx::any_bool("release")); break;
    case 1: { unsigned i = x.ns ? sx::pick("session", x.ns) : 0; ASSUME(x.nr < 2 && x.s[i]); x.schedule(i, sx::any_bool("release")); break; }
    case 2: { unsigned i = x.ns ? sx::pick("session", x.ns) : 0; ASSUME(x.sends < 2 && x.s[i]); x.send(i); break; }
    case 3: ASSUME(x.w.run_one()); break;
    case 4: ASSUME(last != 4); { bool ok = x.progress(sx::pick("how", 2)); ASSUME(ok); } break;
    case 5: { bool ok = last != 5 && x.w.next_timer(); ASSUME(ok); break; }
    case 6: { unsigned i = x.ns ? sx::pick("session", x.ns) : 0; ASSUME(x.s[i] && !(x.session_down >> i & 1)); x.session_down |= 1u << i; x.s[i]->shutdown(); break; }
    case 7: ASSUME(x.c && !x.down); x.down = true; x.c->shutdown(); break;
    case 8: ASSUME(!x.w.asked); x.down = true; x.w.manager(); break;
    case 9: ASSUME(x.c || x.s[0] || x.s[1] || x.r[0] || x.r[1]); x.c.reset(); for (unsigned i = 0; i < 3; i++) { x.s[i].reset(); x.r[i].reset(); } break;
    }
    last = e;
    x.alive();
  }
  x.end();
  EXPECT("scheduled");
  EXPECT("sent");
  EXPECT("polls");
}

// ---- the server
struct Db final : InMemoryDatabase {
  Token t;
  unsigned shutdowns = 0;
  void shutdown() override { shutdowns++; }
};
HARNESS(t02_server) {
  unsigned steps = (unsigned)symx_param("steps", 4), conns = 0, sessions = 0;
  World w;
  auto c = w.m->create_server_tcp_channel("s", Ipv4Endpoint("0.0.0.0", 502), 2);
  std::weak_ptr<IServerChannel> wc = c;
  std::weak_ptr<Db> db[3];
  bool down = false, started = false;
  if (symx_param("pre", 0)) {
    auto d = std::make_shared<Db>();
    db[sessions++] = d;
    c->add_session(UnitIdentifier(1), d);
    c->start(); started = true;
    d.reset();
    w.settle();
    w.io->acceptors.front()->accepted(asio::error_code()); conns++;
    w.settle();
  }
  for (unsigned k = 0; k < steps; k++) {
    auto *a = w.io->acceptors.empty() ? nullptr : w.io->acceptors.front();
    switch (sx::pick("event", 8)) {
    case 0: {
      ASSUME(sessions < 2 && c);
      auto d = std::make_shared<Db>();
      db[sessions++] = d;
      c->add_session(UnitIdentifier((uint8_t)sx::pick("unit", 2)), d);
      break;
    }
    case 1: ASSUME(!started && c); started = true; c->start(); break;
    case 2: ASSUME(w.run_one()); break;
    case 3: { ASSUME(a && !a->accepts.empty() && conns < 3); bool ok = sx::any_bool("accepted"); a->accepted(ok ? asio::error_code() : asio::error_code(asio::error::connection_aborted)); conns += ok; break; }
    case 4: { // traffic
      asio::stub::Socket *s = nullptr;
      for (auto *x : w.io->sockets) if (!x->writes.empty() || !x->reads.empty()) s = x;
      ASSUME(s != nullptr);
      unsigned how = sx::pick("how", 3);
      if (!s->writes.empty()) { if (how == 2) s->write_failed(asio::error::broken_pipe); else { s->transmit(100); s->transmitted(s->writes.front().n); } }
      else if (how == 0) { uint8_t b[12] = {0, 1, 0, 0, 0, 6, 1, 3, 0, 0, 0, 1}; s->received(b, 12); }
      else if (how == 1) { uint8_t b[3] = {0, 1, 0}; s->received(b, 3); }
      else s->read_failed(asio::error::eof);
      break;
    }
    case 5: ASSUME(c && !down); down = true; c->shutdown(); break;
    case 6: ASSUME(!w.asked); down = true; w.manager(); break;
    case 7: ASSUME(c != nullptr); c.reset(); break;
    }
    if (!down) CHECK(!wc.expired(), "a channel is gone before its shutdown");
  }
  if (!down) {
    w.settle();
    // of two sessions for one unit the channel keeps one
    if (sessions) CHECK(tokens != 0, "a session is gone before the shutdown of its channel");
  }
  if (!w.asked) w.manager();
  w.settle();
  c.reset();
  w.settle();
  CHECK(wc.expired(), "a channel outlives its shutdown");
  CHECK(tokens == 0, "a session outlives its shutdown");
  CHECK(w.io->sockets.empty(), "a connection outlives the shutdown");
  CHECK(w.io->acceptors.empty(), "a server outlives the shutdown");
  CHECK(w.io->strands.empty(), "an executor outlives the shutdown");
  if (conns) COVER("connected");
  EXPECT("connected");
}
