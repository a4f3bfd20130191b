// N05: clients and a server made by the manager, over a network that fails at any point.
#include "symx.h"
#include <deque>
#include "exe4cpp/asio/StrandExecutor.h"
#include "exe4cpp/asio/ThreadPool.h"
#include "logging/Logger.h"
#include "modbus/IModbusManager.h"
#include "modbus/Ipv4Endpoint.h"
#include "modbus/client/IClientChannel.h"
#include "modbus/client/IClientSession.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/messages/ReadHoldingRegistersRequest.h"
#include "modbus/messages/ReadHoldingRegistersResponse.h"
#include "modbus/messages/WriteSingleRegisterRequest.h"
#include "modbus/messages/WriteSingleRegisterResponse.h"
#include "modbus/server/IServerChannel.h"
#include "modbus/server/IServerSession.h"
#include "modbus/server/db/InMemoryDatabase.h"
using namespace modbus;
using dur = exe4cpp::duration_t;
using Socket = asio::stub::Socket;

namespace {
const unsigned MAXR = 12, MAXC = 2;
enum Kind { READ, WRITE, ABSENT };
enum How { OPEN, VALUE, REFUSED, LATE, LOST, ODD };
struct Request { unsigned kind, client, calls, issued, ended, executed; How how; uint16_t value; };
struct World;
World *W;

struct Db final : InMemoryDatabase {
  using InMemoryDatabase::get_holding_register;
  using InMemoryDatabase::on_request;
  Expected<WriteSingleRegisterResponse> on_request(const WriteSingleRegisterRequest &r) override;
};
struct Line { // between a client and the server
  Socket *c = nullptr, *s = nullptr;
  unsigned cs = 0, sid = 0;
  bool up = false;
  std::deque<uint8_t> to_server, to_client;
};
struct World {
  std::unique_ptr<IModbusManager> m = IModbusManager::create(std::make_shared<Logger>(std::make_shared<spdlog::logger>("m", std::make_shared<spdlog::sinks::sink>())), 1);
  asio::io_service *io = asio::io_service::all().back();
  std::shared_ptr<Db> db = std::make_shared<Db>();
  std::shared_ptr<IServerChannel> server;
  std::shared_ptr<IClientChannel> ch[MAXC];
  std::shared_ptr<IClientSession> s[MAXC];
  Socket *sock[MAXC] = {};
  asio::stub::Resolver *res[MAXC] = {};
  exe4cpp::MockExecutor *strand[MAXC] = {};
  Line line[MAXC];
  Request r[MAXR] = {};
  unsigned n = 0, now = 0, nc, chunk = 300;
  uint16_t initial;
  bool server_down = false;

  World(unsigned clients, unsigned limit) : nc(clients) {
    W = this;
    initial = sx::any<uint8_t>("initial");
    db->add_holding_register(7, initial);
    server = m->create_server_tcp_channel("s", Ipv4Endpoint("0.0.0.0", 502), limit);
    server->add_session(UnitIdentifier(5), db);
    server->start();
    settle();
    for (unsigned k = 0; k < nc; k++) {
      auto known = io->sockets;
      auto resolvers = io->resolvers;
      auto strands = io->strands;
      ch[k] = m->create_client_tcp_channel("c", Ipv4Endpoint("device", 502));
      s[k] = ch[k]->create_session(UnitIdentifier(5), dur(100));
      for (auto *x : io->sockets) { bool old = false; for (auto *y : known) old = old || x == y; if (!old) sock[k] = x; }
      for (auto *x : io->resolvers) { bool old = false; for (auto *y : resolvers) old = old || x == y; if (!old) res[k] = x; }
      for (auto *x : io->strands) { bool old = false; for (auto *y : strands) old = old || x == y; if (!old) strand[k] = &x->queue; }
      settle();
    }
  }
  bool run_one() {
    for (auto *x : io->strands) { x->queue.check_for_expired_timers(); if (x->queue.num_active()) { x->queue.run_one(); return true; } }
    return io->run_one();
  }
  void settle() { while (run_one()) {} }

  void issue(unsigned k, unsigned kind) {
    unsigned i = n++;
    r[i].kind = kind; r[i].client = k; r[i].issued = ++now;
    if (kind == WRITE) {
      r[i].value = (uint16_t)((i + 1) << 8 | sx::any<uint8_t>("value"));
      s[k]->send_request(WriteSingleRegisterRequest{RegisterValue{7, r[i].value}}, [this, i](const Expected<WriteSingleRegisterResponse> &e) {
        done(i, e);
        if (e.is_valid()) {
          CHECK(e.get().value.address == 7 && e.get().value.value == r[i].value, "a write is confirmed with another value");
          CHECK(r[i].executed == 1, "a write is confirmed that was not carried out exactly once");
        }
      });
    } else
      s[k]->send_request(ReadHoldingRegistersRequest{(Address)(kind == READ ? 7 : 8), 1}, [this, i, kind](const Expected<ReadHoldingRegistersResponse> &e) {
        done(i, e);
        if (e.is_valid()) {
          CHECK(kind == READ, "a request for an absent address is answered with a value");
          CHECK(e.get().values.size() == 1 && e.get().values[0].address == 7, "a read returns something else than was asked for");
          CHECK(possible(e.get().values[0].value, i), "a read returns a value that the device did not hold");
        }
      });
    settle();
  }
  template <class T> void done(unsigned i, const Expected<T> &e) {
    CHECK(r[i].calls++ == 0, "a request completes twice");
    r[i].ended = ++now;
    r[i].how = e.is_valid() ? VALUE : e.template has_exception<ModbusException>() ? REFUSED : e.template has_exception<TimeoutException>() ? LATE : e.template has_exception<ConnectionException>() ? LOST : ODD;
    CHECK(r[i].how != ODD, "a request fails with an unknown error");
    CHECK(r[i].how != REFUSED || r[i].kind == ABSENT, "the device refuses a legal request");
    if (r[i].how == VALUE) COVER("succeeded");
    if (r[i].how == LOST) COVER("lost");
  }
  // could the device hold this value when request i was carried out?
  bool possible(uint16_t v, unsigned i) const {
    unsigned first = r[i].issued;
    bool ok = false, gone = false;
    for (unsigned w = 0; w < n; w++) if (r[w].kind == WRITE && r[w].how == VALUE && r[w].ended < first) gone = true;
    if (!gone) ok = v == initial;
    for (unsigned w = 0; w < n; w++) {
      if (r[w].kind != WRITE || !r[w].executed) continue;
      bool over = false;
      for (unsigned x = 0; x < n; x++)
        if (r[x].kind == WRITE && x != w && r[x].how == VALUE && r[x].ended < first && ((r[w].how == VALUE && r[w].ended < r[x].issued) || (r[w].client == r[x].client && r[w].issued < r[x].issued))) over = true;
      if (!over) ok = ok | (v == r[w].value);
    }
    return ok;
  }
  // ---- the network
  bool alive(const Line &l) const { return l.up && l.c->opened && l.c->session == l.cs; }
  Socket *other(const Line &l) const { for (auto *x : io->sockets) if (x == l.s && x->id == l.sid && x->opened) return x; return nullptr; }
  void drop(Line &l) { l.up = false; l.to_server.clear(); l.to_client.clear(); }
  // one move of the line of a client; false: nothing to do
  bool move(unsigned k) {
    Line &l = line[k];
    Socket *c = sock[k];
    if (!res[k]->queries.empty()) { res[k]->resolved(1); return true; }
    if (!c->connects.empty()) {
      if (l.up) { Socket *s = other(l); if (s && !s->reads.empty()) s->read_failed(asio::error::eof); drop(l); }
      if (io->acceptors.empty() || io->acceptors.front()->accepts.empty()) { c->established(asio::error::connection_refused); return true; }
      l.s = io->acceptors.front()->accepted(asio::error_code());
      l.sid = l.s->id;
      c->established(asio::error_code());
      l.c = c; l.cs = c->session; l.up = true;
      return true;
    }
    if (!l.up) return false;
    Socket *s = other(l);
    if (!alive(l)) { // the client has closed it
      if (s && !s->reads.empty()) s->read_failed(asio::error::eof);
      drop(l);
      return true;
    }
    if (!c->writes.empty()) {
      if (!s) { c->write_failed(asio::error::broken_pipe); return true; }
      size_t w = c->writes.front().n - c->writes.front().sent;
      if (w > chunk) w = chunk;
      const uint8_t *p = c->transmit(w);
      for (size_t i = 0; i < w; i++) l.to_server.push_back(p[i]);
      c->transmitted(w);
      return true;
    }
    if (s && !s->writes.empty()) {
      size_t w = s->writes.front().n - s->writes.front().sent;
      if (w > chunk) w = chunk;
      const uint8_t *p = s->transmit(w);
      for (size_t i = 0; i < w; i++) l.to_client.push_back(p[i]);
      s->transmitted(w);
      return true;
    }
    if (s && !l.to_server.empty() && !s->reads.empty()) { pass(l.to_server, s); return true; }
    if (!l.to_client.empty() && !c->reads.empty()) { pass(l.to_client, c); return true; }
    if (!s && !c->reads.empty()) { c->read_failed(asio::error::eof); drop(l); return true; }
    return false;
  }
  void pass(std::deque<uint8_t> &q, Socket *to) {
    uint8_t b[64];
    size_t w = q.size() < sizeof b ? q.size() : sizeof b;
    if (w > chunk) w = chunk;
    if (w > to->room()) w = to->room();
    for (size_t i = 0; i < w; i++) { b[i] = q.front(); q.pop_front(); }
    to->received(b, w);
  }
  // what the line is doing fails
  bool fault(unsigned k, bool end = false) {
    Line &l = line[k];
    Socket *c = sock[k];
    if (!res[k]->queries.empty()) { res[k]->failed(asio::error::host_not_found); return true; }
    if (!c->connects.empty()) { c->established(asio::error::connection_refused); return true; }
    if (!l.up || !alive(l)) return false;
    Socket *s = other(l);
    auto why = end ? asio::error_code(asio::error::eof) : asio::error_code(asio::error::connection_reset);
    if (!c->writes.empty() && !end) c->write_failed(asio::error::broken_pipe);
    else if (!c->reads.empty()) c->read_failed(why);
    if (s && !s->reads.empty()) s->read_failed(why);
    drop(l);
    COVER("fault");
    return true;
  }
  bool time(unsigned k) { return strand[k]->advance_to_next_timer(); }
  void finish() {
    for (unsigned guard = 0; guard < 400; guard++) {
      settle();
      bool any = false;
      for (unsigned k = 0; k < nc; k++) if (move(k)) { any = true; settle(); }
      if (any) continue;
      for (unsigned k = 0; k < nc; k++) any = time(k) || any;
      if (!any) break;
    }
    settle();
    for (unsigned i = 0; i < n; i++) CHECK(r[i].calls == 1, "a request does not complete");
  }
};
Expected<WriteSingleRegisterResponse> Db::on_request(const WriteSingleRegisterRequest &q) {
  unsigned i = (unsigned)(q.value.value >> 8) - 1;
  CHECK(i < W->n && W->r[i].kind == WRITE && q.value.value == W->r[i].value && q.value.address == 7, "the device is asked for something that was not requested");
  CHECK(W->r[i].how == OPEN || W->r[i].how == LATE, "a write is carried out after it failed with its connection");
  CHECK(W->r[i].executed++ == 0, "a write is carried out twice");
  return InMemoryDatabase::on_request(q);
}
} // namespace

HARNESS(n05_history) {
  unsigned steps = (unsigned)symx_param("steps", 5), clients = (unsigned)symx_param("clients", 1), faults = (unsigned)symx_param("faults", 2), pre = (unsigned)symx_param("pre", 0);
  World w(clients, (unsigned)symx_param("limit", 2));
  w.chunk = symx_param("chunk", 0) ? (unsigned)symx_param("chunk", 0) : 300;
  if (pre) for (unsigned k = 0; k < clients; k++) { // connected: one request has been answered
    w.issue(k, WRITE);
    while (w.move(k)) w.settle();
    CHECK(w.r[k].how == VALUE, "a request fails although the network works");
  }
  if (pre == 2) { // and a part of another answer has arrived
    static const unsigned PART[] = {1, 6, 7, 8, 10};
    w.issue(clients - 1, READ);
    while (w.line[clients - 1].to_client.empty()) { bool ok = w.move(clients - 1); ASSUME(ok); w.settle(); }
    w.chunk = PART[sx::pick("part", 5)];
    w.pass(w.line[clients - 1].to_client, w.sock[clients - 1]);
    w.settle();
    w.chunk = 300;
  }
  unsigned before = w.n, limit = before + (unsigned)symx_param("requests", 3), downs = (unsigned)symx_param("down", 0);
  for (unsigned i = 0; i < steps; i++) {
    unsigned k = clients > 1 ? sx::pick("client", clients) : 0;
    unsigned e = sx::pick("event", downs ? 6 : 5);
    switch (e) {
    case 0: case 1: ASSUME(w.n < limit); w.issue(k, e); break;
    case 2: { bool ok = w.move(k); ASSUME(ok); break; }
    case 3: { ASSUME(faults); bool ok = w.fault(k, sx::any_bool("the connection ends")); ASSUME(ok); faults--; break; }
    case 4: { bool ok = w.time(k); ASSUME(ok); break; }
    case 5: ASSUME(!w.server_down); w.server_down = true; w.server->shutdown(); break;
    }
    w.settle();
  }
  w.finish();
  // everything works from now on, unless the server is down: one client after the other
  for (unsigned k = 0; k < clients; k++)
    for (unsigned kind = 0; kind < 3; kind++) {
      unsigned i = w.n;
      w.issue(k, kind == 0 ? WRITE : kind == 1 ? READ : ABSENT);
      w.finish();
      if (w.server_down) CHECK(w.r[i].how == LOST || w.r[i].how == LATE, "a server that is down answers");
      else CHECK(w.r[i].how == (kind == 2 ? REFUSED : VALUE), "a request fails although the network works again");
      if (kind == 1 && !w.server_down) { uint16_t v = 0; CHECK(w.db->get_holding_register(7, v) && v == w.r[i - 1].value, "the device does not hold what was written last"); }
    }
  w.m->shutdown();
  w.settle();
  for (unsigned k = 0; k < clients; k++) if (!w.res[k]->queries.empty()) w.res[k]->failed(asio::error::host_not_found);
  w.settle();
  for (unsigned k = 0; k < MAXC; k++) { w.s[k].reset(); w.ch[k].reset(); }
  w.server.reset();
  EXPECT("succeeded");
  EXPECT("fault");
  EXPECT("lost");
}
