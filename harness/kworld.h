// A client channel in a world of nondeterministic events: requests being issued, queued actions being run, time passing,
// frames and errors arriving. Each K harness states its own property over the recorded history.
#pragma once
#include "symx.h"
#include "ITcpConnection.h"
#include "client/channel/ClientChannelTcp.h"
#include "exe4cpp/MockExecutor.h"
#include "modbus/client/IClientSession.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/TimeoutException.h"
#include <cstring>
#include <string>
using namespace modbus;
using dur = exe4cpp::duration_t; // counted in its own unit: no conversions in the queries

namespace kw {
enum Outcome { NONE, DATA, TIMEOUT, CONNECTION, MALFORMED, OTHER };
struct Frame { unsigned n; uint8_t b[32]; };
struct Req {
  bool issued, valid, sent, again;
  uint8_t unit;
  uint16_t timeout, tid;
  steady_time_t at;      // when it was transmitted
  unsigned calls, sends; // of its handler; on the wire
  Outcome out;
};
const unsigned MAXR = 10;
enum Event { ISSUE, RUN, TICK, RECV, ANSWER, FAIL, PARTIAL, SHUT, NEV };
enum { M_ISSUE = 1, M_RUN = 2, M_TICK = 4, M_RECV = 8, M_ANSWER = 16, M_FAIL = 32, M_PARTIAL = 64, M_SHUT = 128 };
struct World;
extern World *W;

struct Conn final : ITcpConnection {
  std::weak_ptr<IConnectionListener> listener;
  unsigned shutdowns = 0, closes = 0;
  void set_listener(std::shared_ptr<IConnectionListener> l) override { listener = l; }
  void send(const ser4cpp::rseq_t &d) override;
  void close() override { closes++; }
  void shutdown() override { shutdowns++; }
};
// a request: two bytes, its number and a constant
struct TagMessage final : IMessage {
  uint8_t tag; bool ok;
  TagMessage(uint8_t t, bool v) : tag(t), ok(v) {}
  std::unique_ptr<IMessage> clone() const override { return std::make_unique<TagMessage>(tag, ok); }
  bool is_valid() const override { return ok; }
  size_t get_message_length() const override { return 2; }
  void build_message(ser4cpp::wseq_t &b) const override { b[0] = tag; b[1] = 0x5A; b.advance(2); }
};
struct World {
  std::shared_ptr<exe4cpp::MockExecutor> ex = std::make_shared<exe4cpp::MockExecutor>();
  std::shared_ptr<Conn> conn = std::make_shared<Conn>();
  std::shared_ptr<ClientChannelTcp> ch;
  Req r[MAXR] = {};
  unsigned n = 0, limit = MAXR;  // requests issued; at most that many
  int current = -1;              // transmitted and not completed
  int last_sent = -1;
  uint16_t last_tid = 0;
  unsigned nsent = 0;
  bool shut = false;             // the shutdown has been executed
  bool reissue = false, units = true, invalid = false;
  // what is being delivered at the moment
  bool receiving = false; int target = -1; const uint8_t *payload = nullptr; unsigned paylen = 0;
  bool failing = false; std::string failure;
  unsigned handled = 0, transmitted = 0; // since the current event began
  unsigned settled = 0;          // requests below this have been taken over by the channel
  unsigned last = NEV;           // the previous event
  bool asked = false;            // the shutdown has been requested
  void (*on_send)(int i, uint16_t tid, uint8_t unit, unsigned len) = nullptr;
  void (*before_receive)(uint16_t tid, uint8_t unit) = nullptr;
  void (*after_receive)() = nullptr;
  void (*on_done)(int i, const Expected<ser4cpp::rseq_t> &e) = nullptr;

  World() {
    W = this;
    ch = std::make_shared<ClientChannelTcp>(ex, std::make_shared<Logger>(std::make_shared<spdlog::logger>("k")), conn);
  }
  // requests that have been issued, transmitted or queued before the history begins
  void begin(unsigned pre) {
    for (unsigned k = 0; k < pre; k++) issue();
    if (pre) ex->run_many(16);
    settled = n;
  }
  void event() { handled = transmitted = 0; }
  steady_time_t now() { return ex->get_time(); }
  steady_time_t due(unsigned i) { return r[i].at + dur(r[i].timeout); }
  bool waiting(unsigned i) const { return r[i].issued && r[i].calls == 0; }

  void issue() {
    if (n >= limit || n >= MAXR) return;
    unsigned i = n++;
    r[i].issued = true;
    r[i].unit = units ? sx::any<uint8_t>("unit") : 1;
    r[i].timeout = sx::range<uint16_t>("timeout", 1, 1000);
    r[i].valid = invalid ? !sx::any_bool("invalid") : true;
    r[i].again = reissue ? sx::any_bool("handler issues a request") : false;
    ch->send_request(UnitIdentifier(r[i].unit), TagMessage((uint8_t)i, r[i].valid), dur(r[i].timeout), [this, i](const Expected<ser4cpp::rseq_t> &e) { done(i, e); });
  }
  void done(unsigned i, const Expected<ser4cpp::rseq_t> &e) {
    r[i].calls++;
    handled++;
    if (e.is_valid()) r[i].out = DATA;
    else if (e.has_exception<TimeoutException>()) r[i].out = TIMEOUT;
    else if (e.has_exception<ConnectionException>()) r[i].out = CONNECTION;
    else if (e.has_exception<MalformedModbusRequestException>()) r[i].out = MALFORMED;
    else r[i].out = OTHER;
    if (on_done) on_done((int)i, e);
    if ((int)i == current) current = -1;
    if (r[i].again) { r[i].again = false; issue(); }
  }
  uint8_t wire[300];             // the last transmission
  unsigned wirelen = 0;
  void sent(const uint8_t *b, size_t len) {
    wirelen = (unsigned)(len < sizeof wire ? len : sizeof wire);
    memcpy(wire, b, wirelen);
    transmitted++;
    nsent++;
    unsigned i = len == 9 ? b[7] : MAXR;
    bool known = i < MAXR && r[i < MAXR ? i : 0].issued;
    uint16_t tid = len >= 2 ? (uint16_t)(b[0] << 8 | b[1]) : 0;
    uint8_t unit = len >= 7 ? b[6] : 0;
    if (on_send) on_send(known ? (int)i : -1, tid, unit, (unsigned)len);
    last_tid = tid;
    if (!known) return;
    last_sent = current = (int)i;
    r[i].sends++;
    r[i].sent = true;
    r[i].at = now();
    r[i].tid = tid;
  }
  std::shared_ptr<IConnectionListener> listener() { return conn->listener.lock(); }
  void feed(const uint8_t *b, unsigned len) {
    auto l = listener();
    if (l) l->on_receive(ser4cpp::rseq_t(b, len));
  }
  // a complete frame from the device
  void receive(uint16_t tid, uint8_t unit, const uint8_t *p, unsigned len) {
    uint8_t b[300] = {(uint8_t)(tid >> 8), (uint8_t)tid, 0, 0, (uint8_t)((len + 1) >> 8), (uint8_t)(len + 1), unit};
    for (unsigned i = 0; i < len; i++) b[7 + i] = p[i];
    payload = p; paylen = len;
    receiving = true;
    target = current >= 0 && r[current].tid == tid && r[current].unit == unit ? current : -1;
    feed(b, len + 7);
    receiving = false;
    target = -1;
  }
  void answer_current(const uint8_t *p, unsigned len) { receive(r[current].tid, r[current].unit, p, len); }
  void error(const char *m) {
    auto l = listener();
    if (!l) return;
    failing = true; failure = m;
    l->on_error(m);
    failing = false;
  }
  // is there nothing left to run?
  bool idle() { ex->check_for_expired_timers(); return ex->num_active() == 0; }
  // one nondeterministic event out of the given ones
  void step(unsigned events) {
    unsigned list[NEV], m = 0;
    for (unsigned e = 0; e < NEV; e++) if (events >> e & 1) list[m++] = e;
    unsigned e = list[sx::pick("event", m)];
    event();
    switch (e) {
    case ISSUE: ASSUME(n < limit); issue(); break;
    case RUN: ASSUME(ex->num_active() != 0); ex->run_one(); break;
    case TICK: {
      ASSUME(last != TICK && ex->num_pending_timers() != 0);
      uint16_t passed = sx::range<uint16_t>("passed", 1, 2000);
      ex->advance_time(dur(passed));
      break;
    }
    case RECV: { // an arbitrary frame
      ASSUME(nsent != 0);
      uint8_t p[2] = {sx::any<uint8_t>("data"), 0x77};
      uint16_t tid = sx::any<uint16_t>("transaction");
      uint8_t unit = units ? sx::any<uint8_t>("from unit") : 1;
      if (before_receive) before_receive(tid, unit);
      receive(tid, unit, p, 2);
      if (after_receive) after_receive();
      break;
    }
    case ANSWER: { // the answer to the current request
      ASSUME(current >= 0);
      uint8_t p[2] = {sx::any<uint8_t>("data"), 0x78};
      answer_current(p, 2);
      break;
    }
    case FAIL: ASSUME(nsent != 0); error("lost"); break;
    case PARTIAL: { // the beginning of a frame
      ASSUME(nsent != 0 && last != PARTIAL);
      uint8_t b[9] = {0, 0, 0, 0, 0, 3, 1, 9, 9};
      b[1] = (uint8_t)last_tid;
      unsigned k = 1 + sx::pick("length of the part", 3) * 3;
      feed(b, k);
      break;
    }
    case SHUT: ASSUME(!asked); asked = true; ch->shutdown(); break;
    }
    last = e;
    if (ex->num_active() == 0) settled = n;
  }
  // many requests at once, answered one after the other; one of them is late, the handler of one issues another one
  void burst(unsigned total, bool once = false) {
    limit = total;
    unsigned b = 1 + sx::pick("first batch", total), late = sx::pick("late", total + 1), more = sx::pick("issues another one", total + 1);
    ASSUME(late == total || more == total || late == more);
    for (unsigned k = 0; k < b; k++) issue();
    ex->run_many(64);
    while (n < total) issue();
    ex->run_many(64);
    if (more < total) { r[more].again = true; limit = total + 1; }
    for (unsigned k = 0; k < 2 * total && current >= 0; k++) {
      event();
      if (current == (int)late) ex->advance_time(due(current) - now());
      else { uint8_t p[2] = {(uint8_t)k, 0x79}; answer_current(p, 2); }
      ex->run_many(64);
    }
    for (unsigned i = 0; once && i < n; i++) CHECK(r[i].calls == 1 && r[i].sends == 1, "a request of many is not transmitted and completed exactly once");
    COVER("burst");
  }
  // everything comes to an end: the queue runs dry and all timers expire
  void drain() {
    for (unsigned k = 0; k < 3 * MAXR; k++) {
      ex->run_many(64);
      if (!ex->advance_to_next_timer()) break;
    }
    ex->run_many(64);
  }
};
inline void Conn::send(const ser4cpp::rseq_t &d) { W->sent(d, d.length()); }
} // namespace kw
#define KWORLD kw::World *kw::W = nullptr
