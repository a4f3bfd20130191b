// K02: one request on the wire at a time, in the order issued.
#include "kworld.h"
using namespace kw;
KWORLD;

static void sent(int i, uint16_t tid, uint8_t unit, unsigned len) {
  CHECK(i >= 0 && len == 9, "something is transmitted that is not a request");
  CHECK(W->r[i].sends == 0, "a request is transmitted twice");
  CHECK(W->r[i].valid, "an illegal request is transmitted");
  CHECK(unit == W->r[i].unit, "a request is transmitted for another unit");
  for (int j = 0; j < (int)W->n; j++) {
    if (j == i) continue;
    CHECK(!W->r[j].sent || W->r[j].calls, "a request is transmitted while an earlier one is waiting for its answer");
    CHECK(!W->r[j].sent || j < i, "a request is transmitted before one that was issued earlier");
  }
  CHECK(W->nsent == 1 || tid != W->last_tid, "two consecutive transmissions carry the same transaction identifier");
  if (W->nsent > 1) COVER("second transmission");
}
HARNESS(k02_history) {
  unsigned steps = (unsigned)symx_param("steps", 4);
  World w;
  w.on_send = sent;
  w.limit = (unsigned)symx_param("limit", 4);
  w.reissue = symx_param("reissue", 0) != 0;
  w.units = true;
  w.begin((unsigned)symx_param("pre", 2));
  for (unsigned k = 0; k < steps; k++) {
    w.step(M_ISSUE | M_RUN | M_TICK | M_ANSWER | M_FAIL);
    // whoever waits is sent as soon as it may
    bool pending = false;
    for (unsigned i = 0; i < w.n; i++) pending |= w.waiting(i);
    if (pending && w.ex->num_active() == 0) CHECK(w.current >= 0, "requests are waiting and none is on the wire");
  }
  EXPECT("second transmission");
}
// the 16-bit transaction counter of the channel anywhere, in particular about to wrap. The counter is found by
// observation: the 16 bits of the channel that follow the identifiers it transmits.
HARNESS(k02_counter) {
  World w;
  w.on_send = sent;
  w.units = false;
  struct Obj { uint8_t b[sizeof(ClientChannelTcp)]; };
  auto look = [&](uint16_t *to) { for (size_t k = 0; k + 2 <= sizeof(ClientChannelTcp); k += 2) memcpy(&to[k / 2], (const uint8_t *)w.ch.get() + k, 2); };
  static uint16_t a[sizeof(Obj) / 2 + 1], b[sizeof(Obj) / 2 + 1], c[sizeof(Obj) / 2 + 1];
  uint16_t id[3];
  uint8_t p[2] = {1, 2};
  uint16_t *snap[3] = {a, b, c};
  for (int k = 0; k < 3; k++) {
    w.issue();
    w.ex->run_many(8);
    CHECK(w.current == k, "a request is not transmitted");
    id[k] = w.r[k].tid;
    w.answer_current(p, 2);
    look(snap[k]);
  }
  size_t found = 0, where = 0;
  for (size_t k = 0; k < sizeof(Obj) / 2; k++)
    if (b[k] == (uint16_t)(a[k] + (uint16_t)(id[1] - id[0])) && c[k] == (uint16_t)(b[k] + (uint16_t)(id[2] - id[1])) && a[k] != b[k] && b[k] != c[k]) {
      found++;
      where = 2 * k;
    }
  if (found == 1) { // an arbitrary number of requests later
    COVER("counter found");
    uint16_t v = sx::any<uint16_t>("counter");
    memcpy((uint8_t *)w.ch.get() + where, &v, 2);
    w.nsent = 0; // nothing is known about the request before
  }
  for (int k = 3; k < 6; k++) {
    w.issue();
    w.ex->run_many(8);
    CHECK(w.current == k && w.r[k].sends == 1, "a request is not transmitted");
    if (k != 4) w.answer_current(p, 2); else { w.ex->advance_time(dur(1000)); w.ex->run_many(8); }
    CHECK(w.r[k].calls == 1 && w.r[k].out == (k != 4 ? DATA : TIMEOUT), "a request is not completed");
  }
}
// many requests at once
HARNESS(k02_burst) {
  World w;
  w.on_send = sent;
  w.burst((unsigned)symx_param("requests", 8));
  EXPECT("burst");
}
