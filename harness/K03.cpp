// K03: a response is delivered only to the request it answers.
#include "kworld.h"
using namespace kw;
KWORLD;

static void done(int i, const Expected<ser4cpp::rseq_t> &e) {
  if (!e.is_valid()) {
    CHECK(!W->receiving, "a received frame fails a request");
    return;
  }
  CHECK(W->receiving, "a response is reported although none is being received");
  CHECK(i == W->target && W->handled == 1, "a frame completes a request it does not answer");
  auto d = e.get();
  CHECK(d.length() == W->paylen, "a response is altered");
  for (unsigned k = 0; k < W->paylen; k++) CHECK(((const uint8_t *)d)[k] == W->payload[k], "a response is altered");
}
static int before;
static unsigned pending, timers;
static void arriving(uint16_t, uint8_t) {
  before = W->current;
  pending = (unsigned)W->ex->num_active();
  timers = (unsigned)W->ex->num_pending_timers();
}
static void arrived() {
  bool answers = W->handled == 1;
  if (answers) { COVER("answer"); return; }
  COVER("foreign");
  CHECK(W->handled == 0 && W->transmitted == 0, "a frame that answers nothing has an effect");
  CHECK(W->current == before && W->ex->num_active() == pending && W->ex->num_pending_timers() == timers, "a frame that answers nothing has an effect");
}
static void frame(World &w, uint16_t tid, uint8_t unit, unsigned len) {
  uint8_t p[16];
  for (unsigned k = 0; k < len; k++) p[k] = sx::any<uint8_t>("data");
  arriving(tid, unit);
  int t = w.current >= 0 && w.r[w.current].tid == tid && w.r[w.current].unit == unit ? w.current : -1;
  w.event();
  w.receive(tid, unit, p, len);
  CHECK(t < 0 || w.r[t].calls == 1, "the answer to a request does not complete it");
  arrived();
}
HARNESS(k03_history) {
  unsigned steps = (unsigned)symx_param("steps", 4);
  World w;
  w.on_done = done;
  w.limit = (unsigned)symx_param("limit", 4);
  w.reissue = symx_param("reissue", 0) != 0;
  w.begin((unsigned)symx_param("pre", 2));
  for (unsigned k = 0; k < steps; k++) {
    if (sx::any_bool("frame")) {
      uint16_t tid = sx::any<uint16_t>("transaction");
      uint8_t unit = sx::any<uint8_t>("from unit");
      frame(w, tid, unit, 1 + sx::pick("length", 2));
    } else
      w.step(M_ISSUE | M_RUN | M_TICK | M_FAIL);
  }
  EXPECT("answer"); EXPECT("foreign");
}
// an answer and what follows it in the same read: a duplicate, the answer of the next request, or anything
HARNESS(k03_same_read) {
  World w;
  w.on_done = nullptr;
  w.begin(3);
  uint8_t b[32];
  uint16_t tid[2] = {w.r[0].tid, sx::any<uint16_t>("transaction")};
  uint8_t unit[2] = {w.r[0].unit, sx::any<uint8_t>("from unit")}, data[2];
  for (int k = 0; k < 2; k++) {
    data[k] = sx::any<uint8_t>("data");
    uint8_t f[8] = {(uint8_t)(tid[k] >> 8), (uint8_t)tid[k], 0, 0, 0, 2, unit[k], data[k]};
    memcpy(b + 8 * k, f, 8);
  }
  static uint8_t got[MAXR];
  static unsigned ngot[MAXR];
  for (unsigned i = 0; i < MAXR; i++) got[i] = 0, ngot[i] = 0;
  w.on_done = [](int i, const Expected<ser4cpp::rseq_t> &e) {
    CHECK(e.is_valid(), "a received frame fails a request");
    CHECK(e.get().length() == 1, "a response is altered");
    got[i] = ((const uint8_t *)e.get())[0];
    ngot[i]++;
  };
  unsigned cut = sx::pick("first read", 17);
  if (cut) w.feed(b, cut);
  if (cut < 16) w.feed(b + cut, 16 - cut);
  CHECK(ngot[0] == 1 && got[0] == data[0], "the answer to a request does not complete it");
  CHECK(w.r[1].sent, "a request is not transmitted when its predecessor is answered");
  bool match = tid[1] == w.r[1].tid && unit[1] == w.r[1].unit;
  if (match) COVER("early answer"); else COVER("other");
  CHECK(ngot[1] == (match ? 1u : 0u) && (!match || got[1] == data[1]), "a frame completes a request it does not answer, or does not complete the one it answers");
  CHECK(ngot[2] == 0 && w.r[2].sent == match, "a frame completes a request it does not answer");
  EXPECT("early answer"); EXPECT("other");
}
// many requests at once
HARNESS(k03_burst) {
  World w;
  w.on_done = done;
  w.burst((unsigned)symx_param("requests", 8));
  EXPECT("burst");
}
