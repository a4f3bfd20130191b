// K06: illegal requests are refused locally and never transmitted.
#include "kworld.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/messages/ReadCoilsRequest.h"
#include "modbus/messages/ReadCoilsResponse.h"
#include "modbus/messages/ReadDiscreteInputsRequest.h"
#include "modbus/messages/ReadDiscreteInputsResponse.h"
#include "modbus/messages/ReadHoldingRegistersRequest.h"
#include "modbus/messages/ReadHoldingRegistersResponse.h"
#include "modbus/messages/ReadInputRegistersRequest.h"
#include "modbus/messages/ReadInputRegistersResponse.h"
#include "modbus/messages/WriteMultipleCoilsRequest.h"
#include "modbus/messages/WriteMultipleCoilsResponse.h"
#include "modbus/messages/WriteMultipleRegistersRequest.h"
#include "modbus/messages/WriteMultipleRegistersResponse.h"
#include "modbus/messages/WriteSingleCoilRequest.h"
#include "modbus/messages/WriteSingleCoilResponse.h"
#include "modbus/messages/WriteSingleRegisterRequest.h"
#include "modbus/messages/WriteSingleRegisterResponse.h"
using namespace kw;
KWORLD;

static void done(int i, const Expected<ser4cpp::rseq_t> &) {
  CHECK(W->r[i].valid == (W->r[i].out != MALFORMED), "a legal request is refused or an illegal one is not");
  CHECK(W->r[i].calls == 1, "an illegal request is reported twice");
}
static void sent(int i, uint16_t, uint8_t, unsigned) {
  CHECK(i >= 0 && W->r[i].valid, "an illegal request is transmitted");
}
HARNESS(k06_history) {
  unsigned steps = (unsigned)symx_param("steps", 4);
  World w;
  w.on_done = done;
  w.on_send = sent;
  w.units = false;
  w.invalid = true;
  w.limit = (unsigned)symx_param("limit", 4);
  w.begin((unsigned)symx_param("pre", 2));
  for (unsigned k = 0; k < steps; k++) {
    int before = w.current;
    w.event();
    bool run = w.ex->num_active() != 0;
    w.step(M_ISSUE | M_RUN | M_TICK | M_ANSWER | M_FAIL);
    // refusing one request leaves the one on the wire alone
    if (run && w.handled == 1 && w.last == RUN && before >= 0)
      for (unsigned i = 0; i < w.n; i++)
        if (w.r[i].out == MALFORMED && w.r[i].calls == 1 && w.r[before].calls == 0) CHECK(w.current == before, "an illegal request disturbs another");
  }
  w.drain();
  for (unsigned i = 0; i < w.n; i++) {
    CHECK(w.r[i].calls == 1, "a request is reported never or twice");
    if (!w.r[i].valid) { COVER("refused"); CHECK(w.r[i].out == MALFORMED, "an illegal request is not reported as such"); }
    else CHECK(w.r[i].sends == 1 || w.r[i].out == CONNECTION, "a legal request is not transmitted");
  }
  EXPECT("refused");
}
// which requests of the eight types are refused
static unsigned refused, other, frames;
template <class R> static void answer(const Expected<R> &e) {
  if (!e.is_valid() && e.template has_exception<MalformedModbusRequestException>()) refused++;
  else other++;
}
static void run(World &w, bool legal) {
  frames = w.nsent;
  w.ex->run_many(16);
  if (legal) {
    COVER("legal");
    CHECK(w.nsent == frames + 1 && refused == 0 && other == 0, "a legal request is not transmitted");
    w.ex->advance_time(dur(100));
    w.ex->run_many(16);
    CHECK(refused == 0 && other == 1, "a legal request is refused");
  } else {
    COVER("illegal");
    CHECK(w.nsent == frames, "an illegal request is transmitted");
    CHECK(refused == 1 && other == 0, "an illegal request is not reported as malformed exactly once");
    w.ex->advance_time(dur(100));
    w.ex->run_many(16);
    CHECK(refused == 1 && other == 0, "an illegal request is reported twice");
  }
}
struct Start {
  World w;
  std::shared_ptr<IClientSession> s;
  Start() {
    refused = other = 0;
    s = w.ch->create_session(UnitIdentifier(3), dur(100));
  }
};
static const unsigned nums[] = {0, 1, 2, 122, 123, 124, 125, 126, 127, 128, 255, 256, 257, 1967, 1968, 1969, 1970, 2000, 2001};
HARNESS(k06_legal_read) {
  Start t;
  unsigned kind = sx::pick("type", 4);
  Address a = sx::any<uint16_t>("address");
  uint16_t q = sx::any<uint16_t>("quantity");
  switch (kind) {
  case 0: t.s->send_request(ReadCoilsRequest{a, q}, answer<ReadCoilsResponse>); break;
  case 1: t.s->send_request(ReadDiscreteInputsRequest{a, q}, answer<ReadDiscreteInputsResponse>); break;
  case 2: t.s->send_request(ReadHoldingRegistersRequest{a, q}, answer<ReadHoldingRegistersResponse>); break;
  case 3: t.s->send_request(ReadInputRegistersRequest{a, q}, answer<ReadInputRegistersResponse>); break;
  }
  run(t.w, q >= 1 && q <= (kind < 2 ? 2000 : 125));
  EXPECT("legal"); EXPECT("illegal");
}
HARNESS(k06_legal_write) {
  Start t;
  unsigned kind = sx::pick("type", 4);
  Address a = sx::any<uint16_t>("address");
  bool legal = true;
  switch (kind) {
  case 0: t.s->send_request(WriteSingleCoilRequest{SingleBitValue{a, sx::any_bool("v")}}, answer<WriteSingleCoilResponse>); break;
  case 1: t.s->send_request(WriteSingleRegisterRequest{RegisterValue{a, sx::any<uint16_t>("v")}}, answer<WriteSingleRegisterResponse>); break;
  case 2: case 3: {
    unsigned n = nums[sx::pick("number", sizeof nums / sizeof *nums)];
    if (kind == 2) {
      WriteMultipleCoilsRequest r{a};
      for (unsigned k = 0; k < n; k++) r.values.push_back(k % 3 == 0);
      t.s->send_request(r, answer<WriteMultipleCoilsResponse>);
      legal = n >= 1 && n <= 1968;
    } else {
      WriteMultipleRegistersRequest r{a};
      for (unsigned k = 0; k < n; k++) r.values.push_back((uint16_t)k);
      t.s->send_request(r, answer<WriteMultipleRegistersResponse>);
      legal = n >= 1 && n <= 123;
    }
    break;
  }
  }
  run(t.w, legal);
  EXPECT("legal"); EXPECT("illegal");
}
