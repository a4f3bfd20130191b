// K12: the library may be used from inside its handlers. Two channels see the same events; in the first one the user acts inside
// the handler, in the second one right after it. Nobody outside can tell them apart, and nothing waits for ever.
#include "symx.h"
#include "ITcpConnection.h"
#include "client/channel/ClientChannelTcp.h"
#include "exe4cpp/MockExecutor.h"
#include "modbus/client/IClientSession.h"
#include "modbus/client/IScheduledRequest.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/messages/ReadHoldingRegistersRequest.h"
#include "modbus/messages/ReadHoldingRegistersResponse.h"
#include "modbus/messages/WriteSingleRegisterRequest.h"
#include "modbus/messages/WriteSingleRegisterResponse.h"
using namespace modbus;
using dur = exe4cpp::duration_t;

enum Outcome { ANSWER, REFUSED, GARBAGE, LATE, LOST, NOUT };
enum Action { SEND0, SEND1, ILLEGAL, SCHEDULE, TIMER, CANCEL, CREATE, SHUT0, SHUT1, CLOSE, STOP, STOPSTART, START, PERIOD, RELEASE, NACT };
enum { SENT, CALLED, FIRED };
struct Rec { uint8_t what, a, b; uint16_t c; long t; };
static const unsigned MAXREC = 64;
struct World;
struct Conn final : ITcpConnection {
  World *w = nullptr;
  std::weak_ptr<IConnectionListener> listener;
  void set_listener(std::shared_ptr<IConnectionListener> l) override { listener = l; }
  void send(const ser4cpp::rseq_t &d) override;
  void close() override {}
  void shutdown() override;
};
struct World {
  std::shared_ptr<exe4cpp::MockExecutor> ex = std::make_shared<exe4cpp::MockExecutor>();
  std::shared_ptr<Conn> conn = std::make_shared<Conn>();
  std::shared_ptr<IClientChannel> ch;
  std::shared_ptr<IClientSession> s[3];
  std::shared_ptr<IScheduledRequest> sr[3]; // of the sessions 0 and 1, and a new one
  std::unique_ptr<ITimer> tm, tm2;
  Rec rec[MAXREC];
  unsigned n = 0, downs = 0;
  bool inside, due = false, done = false, released = false;
  unsigned act, kind;
  unsigned calls[16] = {};
  // the request on the wire
  bool out = false; uint8_t wire[12];
  explicit World(bool i, unsigned k, unsigned a) : inside(i), act(a), kind(k) {
    conn->w = this;
    ch = std::make_shared<ClientChannelTcp>(ex, std::make_shared<Logger>(std::make_shared<spdlog::logger>("k")), conn);
    s[0] = ch->create_session(UnitIdentifier(1), dur(100));
    s[1] = ch->create_session(UnitIdentifier(2), dur(110));
  }
  void note(uint8_t what, uint8_t a, uint8_t b, uint16_t c) {
    CHECK(n < MAXREC, "the events do not end");
    rec[n++] = Rec{what, a, b, c, (long)ex->get_time().time_since_epoch().count()};
  }
  // called at the end of every handler; the one of number 0 acts
  void handler(unsigned i, unsigned outcome) {
    note(CALLED, (uint8_t)i, (uint8_t)outcome, 0);
    calls[i]++;
    if (i != 0 || done || due) return;
    if (inside) { done = true; use(); }
    else due = true;
  }
  void after() { if (due) { due = false; done = true; use(); } }
  template <class T> static unsigned what(const Expected<T> &e) {
    if (e.is_valid()) return 0;
    if (e.template has_exception<ModbusException>()) return 1;
    if (e.template has_exception<TimeoutException>()) return 2;
    if (e.template has_exception<ConnectionException>()) return 3;
    if (e.template has_exception<MalformedModbusRequestException>()) return 4;
    return e.template has_exception<MalformedModbusResponseException>() ? 5 : 6;
  }
  void send(unsigned o, unsigned i) {
    s[o]->send_request(WriteSingleRegisterRequest{RegisterValue{(uint16_t)i, 7}}, [this, i](const Expected<WriteSingleRegisterResponse> &e) { handler(i, what(e)); });
  }
  void schedule(unsigned k, unsigned o, unsigned i) {
    sr[k] = s[o]->schedule_request(ReadHoldingRegistersRequest{Address((uint16_t)(100 + i)), 1}, dur(90 + i), dur(331 + 10 * k), [this, i](const Expected<ReadHoldingRegistersResponse> &e) { handler(i, what(e)); });
  }
  void illegal(unsigned i) {
    s[0]->send_request(ReadHoldingRegistersRequest{1, 0}, [this, i](const Expected<ReadHoldingRegistersResponse> &e) { handler(i, what(e)); });
  }
  void timer(std::unique_ptr<ITimer> &t, unsigned d, unsigned i) {
    t = s[1]->start(dur(d), [this, i] { note(FIRED, (uint8_t)i, 0, 0); if (i == 0) handler(0, 0); });
  }
  void use() {
    switch (act) {
    case SEND0: send(0, 8); break;
    case SEND1: send(1, 8); send(0, 9); break;
    case ILLEGAL: illegal(8); break;
    case SCHEDULE: schedule(2, 1, 8); break;
    case TIMER: timer(tm2, 57, 8); break;
    case CANCEL: if (tm) tm->cancel(); break;
    case CREATE: s[2] = ch->create_session(UnitIdentifier(3), dur(120)); CHECK(s[2] != nullptr, "no session can be created from inside a handler"); send(2, 8); break;
    case SHUT0: s[0]->shutdown(); break;
    case SHUT1: s[1]->shutdown(); break;
    case CLOSE: ch->shutdown(); break;
    case STOP: for (auto &r : sr) if (r) r->stop(); break;
    case STOPSTART: for (auto &r : sr) if (r) { r->stop(); r->start(); } break;
    case START: for (auto &r : sr) if (r) r->start(); break;
    case PERIOD: for (auto &r : sr) if (r) r->set_frequency(dur(150)); break;
    case RELEASE: for (auto &r : sr) r.reset(); for (auto &x : s) x.reset(); ch.reset(); released = true; break;
    }
  }
  void sent(const uint8_t *b, size_t len) {
    if (len < 12) return;
    out = true;
    memcpy(wire, b, 12);
    note(SENT, b[7], b[6], (uint16_t)(b[8] << 8 | b[9]));
  }
  void feed(const uint8_t *b, unsigned len) { auto l = conn->listener.lock(); if (l) l->on_receive(ser4cpp::rseq_t(b, len)); }
  void answer(unsigned how) {
    out = false;
    if (how == LOST) { auto l = conn->listener.lock(); if (l) l->on_error("lost"); }
    else if (how == LATE) ex->advance_to_next_timer();
    else if (how == REFUSED) { uint8_t r[9] = {wire[0], wire[1], 0, 0, 0, 3, wire[6], (uint8_t)(wire[7] | 0x80), 4}; feed(r, 9); }
    else if (how == GARBAGE) { uint8_t r[9] = {wire[0], wire[1], 0, 0, 0, 3, wire[6], wire[7], 9}; feed(r, 9); }
    else if (wire[7] == 6) { uint8_t r[12]; memcpy(r, wire, 12); feed(r, 12); }
    else { uint8_t r[11] = {wire[0], wire[1], 0, 0, 0, 5, wire[6], 3, 2, 1, 2}; feed(r, 11); }
    after();
  }
  void run() { for (unsigned k = 0; k < 64 && ex->num_active(); k++) { ex->run_one(); after(); } }
  void live(unsigned how, bool others) {
    timer(tm, 233, 5);
    if (kind == 0) { send(0, 0); send(1, 1); send(0, 2); if (others) schedule(1, 1, 4); }
    else if (kind == 1) { schedule(0, 0, 0); send(1, 1); if (others) schedule(1, 1, 4); }
    else if (kind == 2) { send(0, 1); send(1, 2); if (others) schedule(1, 1, 4); timer(tm2, 0, 0); }
    else { send(1, 1); illegal(0); send(0, 2); if (others) schedule(1, 1, 4); }
    run();
    bool first = true;
    for (unsigned k = 0; k < 16; k++) {
      if (out) { answer(first ? how : ANSWER); first = false; }
      else if (!ex->advance_to_next_timer()) break;
      run();
    }
  }
  bool has(unsigned act0) const { return act == act0; }
};
void Conn::send(const ser4cpp::rseq_t &d) { w->sent(d, d.length()); }
void Conn::shutdown() { w->downs++; }

HARNESS(k12_inside) {
  unsigned kind = (unsigned)symx_param("kind", 0);
  unsigned act = sx::pick("act", NACT), how = kind == 3 ? 0 : sx::pick("how", NOUT);
  bool others = sx::any_bool("others");
  static World *a, *b;
  a = new World(true, kind, act);
  b = new World(false, kind, act);
  a->live(how, others);
  b->live(how, others);
  CHECK(a->done && b->done, "a handler is not called");
  CHECK(a->n == b->n && a->downs == b->downs, "what follows depends on whether the library is used inside a handler or after it");
  for (unsigned i = 0; i < a->n; i++) {
    const Rec &x = a->rec[i], &y = b->rec[i];
    CHECK(x.what == y.what && x.a == y.a && x.b == y.b && x.c == y.c && x.t == y.t, "what follows depends on whether the library is used inside a handler or after it");
  }
  // and it has its effect
  const World &w = *a;
  if (kind != 1) CHECK(w.calls[0] == 1, "a handler is called twice");
  if (act == SEND0 || act == SEND1 || act == ILLEGAL || act == CREATE) CHECK(w.calls[8] == 1, "a request issued inside a handler does not complete exactly once");
  if (act == SEND1) CHECK(w.calls[9] == 1, "a request issued inside a handler does not complete exactly once");
  if (act == SCHEDULE) { CHECK(w.calls[8] >= 2, "a request scheduled inside a handler is not polled"); COVER("scheduled"); }
  unsigned fired5 = 0, fired8 = 0;
  for (unsigned i = 0; i < w.n; i++) if (w.rec[i].what == FIRED) { fired5 += w.rec[i].a == 5; fired8 += w.rec[i].a == 8; }
  if (act == TIMER) CHECK(fired8 == 1, "a timer started inside a handler does not fire once");
  if (act == CANCEL) CHECK(fired5 == 0, "a timer cancelled inside a handler fires");
  if (act == CLOSE) { CHECK(w.downs == 1, "a shutdown inside a handler is not carried out"); COVER("shut down"); }
  if (kind == 0 && act != SHUT0 && act != CLOSE) CHECK(w.calls[2] == 1, "a request issued before does not complete exactly once");
  if (kind != 1 && act != SHUT1 && act != CLOSE) CHECK(w.calls[1] == 1 || kind == 2, "a request issued before does not complete exactly once");
  if (others && kind == 0 && act == RELEASE) { CHECK(w.calls[4] >= 2, "a scheduled request ends when the user's pointers are released inside a handler"); COVER("released"); }
  delete a;
  delete b;
  EXPECT("shut down");
  EXPECT("scheduled");
}
