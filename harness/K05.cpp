// K05: after shutdown a client channel is silent.
#include "kworld.h"
#include "modbus/client/IScheduledRequest.h"
#include "modbus/messages/ReadCoilsRequest.h"
#include "modbus/messages/ReadCoilsResponse.h"
#include "modbus/messages/WriteSingleRegisterRequest.h"
#include "modbus/messages/WriteSingleRegisterResponse.h"
using namespace kw;
KWORLD;

static bool down() { return W->conn->shutdowns != 0; } // the shutdown has been executed
static unsigned polls;
static void done(int, const Expected<ser4cpp::rseq_t> &) { CHECK(!down(), "a handler is called after the shutdown"); }
static void sent(int, uint16_t, uint8_t, unsigned) { CHECK(!down(), "a request is transmitted after the shutdown"); }
static void finish(World &w) {
  if (!w.asked) { w.asked = true; w.ch->shutdown(); }
  w.ex->run_many(64);
  CHECK(down(), "the connection is not shut down");
  auto s = w.ch->create_session(UnitIdentifier(1), dur(5));
  CHECK(!s, "a session is created after the shutdown");
  w.issue();
  uint8_t p[2] = {1, 2};
  w.receive(sx::any<uint16_t>("transaction"), 1, p, 2);
  w.error("lost");
  w.drain();
  CHECK(w.idle() && w.ex->num_pending_timers() == 0, "something keeps running after the shutdown");
}
HARNESS(k05_history) {
  unsigned steps = (unsigned)symx_param("steps", 4);
  World w;
  w.on_done = done;
  w.on_send = sent;
  w.units = false;
  w.invalid = symx_param("invalid", 0) != 0;
  w.reissue = symx_param("reissue", 0) != 0;
  w.limit = (unsigned)symx_param("limit", 4);
  w.begin((unsigned)symx_param("pre", 2));
  for (unsigned k = 0; k < steps; k++) w.step(M_ISSUE | M_RUN | M_TICK | M_ANSWER | M_FAIL | M_SHUT);
  if (down()) COVER("down");
  finish(w);
  EXPECT("down");
}
// the same with sessions and scheduled requests
HARNESS(k05_sessions) {
  unsigned steps = (unsigned)symx_param("steps", 4);
  World w;
  w.on_send = sent;
  w.units = false;
  w.limit = 0;
  auto s = w.ch->create_session(UnitIdentifier(1), dur(sx::range<uint16_t>("default timeout", 1, 1000)));
  std::shared_ptr<IScheduledRequest> sr;
  bool scheduled = false;
  polls = 0;
  for (unsigned k = 0; k < steps; k++) {
    switch (sx::pick("event", 6)) {
    case 0: {
      ASSUME(!scheduled);
      scheduled = true;
      uint16_t every = sx::range<uint16_t>("pause", 1, 1000);
      sr = s->schedule_request(ReadCoilsRequest{1, 2}, dur(every), [](const Expected<ReadCoilsResponse> &) { CHECK(!down(), "a handler is called after the shutdown"); polls++; });
      break;
    }
    case 1: ASSUME(w.nsent < 2); s->send_request(WriteSingleRegisterRequest{RegisterValue{1, 2}}, [](const Expected<WriteSingleRegisterResponse> &) { CHECK(!down(), "a handler is called after the shutdown"); }); break;
    case 2: ASSUME(w.ex->num_active() != 0); w.ex->run_one(); break;
    case 3: ASSUME(w.ex->num_pending_timers() != 0); w.ex->advance_time(dur(sx::range<uint16_t>("passed", 1, 2000))); break;
    case 4: {
      ASSUME(w.nsent != 0);
      uint8_t p[3] = {1, 1, 2};
      w.receive(w.last_tid, 1, p, 3);
      break;
    }
    case 5: ASSUME(!w.asked); w.asked = true; w.ch->shutdown(); break;
    }
  }
  if (down() && scheduled) COVER("down with a scheduled request");
  if (!w.asked) { w.asked = true; w.ch->shutdown(); }
  w.ex->run_many(64);
  CHECK(down(), "the connection is not shut down");
  unsigned before = w.nsent;
  // a request that is started again on a channel that is down
  if (sr && sx::any_bool("started again")) sr->start();
  s->send_request(WriteSingleRegisterRequest{RegisterValue{1, 2}}, [](const Expected<WriteSingleRegisterResponse> &) { CHECK(false, "a handler is called after the shutdown"); });
  w.drain();
  CHECK(w.nsent == before, "a request is transmitted after the shutdown");
  CHECK(w.idle() && w.ex->num_pending_timers() == 0, "something keeps running after the shutdown");
  EXPECT("down with a scheduled request");
}
