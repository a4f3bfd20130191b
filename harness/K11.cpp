// K11: the shutdown of a session cancels its requests, and nothing else.
#include "symx.h"
#include "ITcpConnection.h"
#include "client/channel/ClientChannelTcp.h"
#include "exe4cpp/MockExecutor.h"
#include "modbus/client/IClientSession.h"
#include "modbus/client/IScheduledRequest.h"
#include "modbus/messages/ReadHoldingRegistersRequest.h"
#include "modbus/messages/ReadHoldingRegistersResponse.h"
#include "modbus/messages/WriteSingleRegisterRequest.h"
#include "modbus/messages/WriteSingleRegisterResponse.h"
using namespace modbus;
using dur = exe4cpp::duration_t;

struct World;
static World *W;
static const unsigned MAXR = 8;
struct Conn final : ITcpConnection {
  std::weak_ptr<IConnectionListener> listener;
  void set_listener(std::shared_ptr<IConnectionListener> l) override { listener = l; }
  void send(const ser4cpp::rseq_t &d) override;
  void close() override {}
  void shutdown() override {}
};
struct World {
  std::shared_ptr<exe4cpp::MockExecutor> ex = std::make_shared<exe4cpp::MockExecutor>();
  std::shared_ptr<Conn> conn = std::make_shared<Conn>();
  std::shared_ptr<ClientChannelTcp> ch;
  std::shared_ptr<IClientSession> s[2];       // the first one is shut down
  std::shared_ptr<IScheduledRequest> sr[3]; // the last one is of the first session as well
  unsigned n = 0, owner[MAXR], calls[MAXR] = {}, sends[MAXR] = {};
  unsigned polls[3] = {};
  bool asked = false, down = false;
  // the request on the wire
  bool out = false; uint8_t wire[12]; unsigned wirelen = 0; steady_time_t due{};
  World() {
    W = this;
    ch = std::make_shared<ClientChannelTcp>(ex, std::make_shared<Logger>(std::make_shared<spdlog::logger>("k")), conn);
    bool same = sx::any_bool("same unit");
    s[0] = ch->create_session(UnitIdentifier(1), dur(100));
    s[1] = ch->create_session(UnitIdentifier(same ? 1 : 2), dur(100));
  }
  ~World() { W = nullptr; }
  void called(unsigned o) { CHECK(o || !down, "a handler of a session is called after its shutdown"); }
  void issue(unsigned o) {
    unsigned i = n++;
    owner[i] = o;
    s[o]->send_request(WriteSingleRegisterRequest{RegisterValue{(uint16_t)(i + 16 * o), 7}}, [this, i, o](const Expected<WriteSingleRegisterResponse> &) { called(o); calls[i]++; });
  }
  void schedule(unsigned k) {
    unsigned o = k % 2;
    sr[k] = s[o]->schedule_request(ReadHoldingRegistersRequest{Address((uint16_t)(100 + k)), 1}, dur(300), [this, o, k](const Expected<ReadHoldingRegistersResponse> &) { called(o); polls[k]++; });
  }
  void sent(const uint8_t *b, size_t len) {
    CHECK(!out || ex->get_time() >= due, "two requests are outstanding");
    out = true;
    due = ex->get_time() + dur(100);
    wirelen = (unsigned)(len < 12 ? len : 12);
    memcpy(wire, b, wirelen);
    unsigned a = (unsigned)(b[8] << 8 | b[9]);
    unsigned o = b[7] == 6 ? a / 16 : a % 2;
    CHECK(o || !down, "a request of a session is transmitted after its shutdown");
    if (b[7] == 6) {
      unsigned i = a % 16;
      CHECK(i < n && owner[i] == o && !sends[i], "a request is transmitted twice or with another content");
      sends[i]++;
    }
  }
  void feed(const uint8_t *b, unsigned len) { auto l = conn->listener.lock(); if (l) l->on_receive(ser4cpp::rseq_t(b, len)); }
  void answer() {
    out = false;
    if (wire[7] == 6) { uint8_t r[12]; memcpy(r, wire, 12); feed(r, 12); }
    else { uint8_t r[11] = {wire[0], wire[1], 0, 0, 0, 5, wire[6], 3, 2, 1, 2}; feed(r, 11); }
  }
  void shut() {
    asked = true;
    s[0]->shutdown();
    ex->post([this] { down = true; });
  }
};
void Conn::send(const ser4cpp::rseq_t &d) { W->sent(d, d.length()); }

HARNESS(k11_history) {
  unsigned steps = (unsigned)symx_param("steps", 5), last = 99;
  long limit = symx_param("limit", 3);
  World w;
  unsigned pre = (unsigned)symx_param("pre", 0); // 1: both sessions have a request; 2: both poll
  if (pre == 1) { w.issue(0); w.issue(1); w.issue(0); limit += 3; }
  if (pre >= 2) { w.schedule(0); w.schedule(1); }
  if (pre == 3) { w.schedule(2); if (sx::any_bool("the first one is stopped")) w.sr[0]->stop(); }
  if (pre) w.ex->run_many(32);
  for (unsigned k = 0; k < steps; k++) {
    unsigned e = sx::pick("event", 7);
    switch (e) {
    case 0: { ASSUME(w.n < limit); w.issue(sx::pick("session", 2)); break; }
    case 1: { unsigned o = sx::pick("session", 2); ASSUME(!w.sr[o]); w.schedule(o); break; }
    case 2: ASSUME(w.ex->num_active() != 0); w.ex->run_one(); break;
    case 3: ASSUME(last != 3 && w.ex->num_pending_timers() != 0); w.ex->advance_to_next_timer(); break;
    case 4: ASSUME(w.out); w.answer(); break;
    case 5: { ASSUME(w.out); auto l = w.conn->listener.lock(); w.out = false; l->on_error("lost"); break; }
    case 6: ASSUME(!w.asked); w.shut(); break;
    }
    last = e;
  }
  if (!w.asked) w.shut();
  w.ex->run_many(64);
  CHECK(w.down, "the actions are not run");
  for (auto &p : {w.sr[0], w.sr[2]}) if (p) CHECK(!p->is_running(), "a scheduled request of a session runs after its shutdown");
  if (w.n < MAXR && sx::any_bool("afterwards")) {
    w.issue(0);
    if (!w.sr[0]) w.schedule(0); else w.sr[0]->start();
  }
  // the other session goes on
  if (w.n < MAXR) w.issue(1);
  unsigned before = w.polls[1];
  for (unsigned k = 0; k < 12; k++) {
    w.ex->run_many(64);
    if (!w.ex->advance_to_next_timer()) break;
  }
  w.ex->run_many(64);
  for (unsigned i = 0; i < w.n; i++) {
    if (w.owner[i]) CHECK(w.calls[i] == 1 && w.sends[i] <= 1, "a request of another session does not complete exactly once");
    else CHECK(w.calls[i] <= 1, "a request completes twice");
  }
  if (w.sr[1]) { CHECK(w.polls[1] >= before + 3, "a scheduled request of another session does not go on"); COVER("the other one polls"); }
  EXPECT("the other one polls");
}
