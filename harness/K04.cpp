// K04: a request times out only when its own time has elapsed.
#include "kworld.h"
using namespace kw;
KWORLD;

static void done(int i, const Expected<ser4cpp::rseq_t> &) {
  if (W->r[i].out != TIMEOUT) return;
  COVER("timed out");
  CHECK(W->r[i].sent, "a request times out before it has been transmitted");
  CHECK(W->now() >= W->due(i), "a request times out before its time has elapsed");
}
static void sent(int i, uint16_t, uint8_t, unsigned) {
  CHECK(i >= 0, "something is transmitted that is not a request");
}
// when nothing is left to run, nobody has been waiting for longer than its timeout
static void settled(World &w) {
  if (!w.idle()) return;
  if (w.current >= 0) CHECK(w.now() < w.due(w.current), "a request does not time out although its time has elapsed");
  for (unsigned i = 0; i < w.n; i++)
    if (w.waiting(i)) CHECK(w.current >= 0, "requests are waiting and none is on the wire");
}
HARNESS(k04_history) {
  unsigned steps = (unsigned)symx_param("steps", 4);
  World w;
  w.on_done = done;
  w.on_send = sent;
  w.units = false;
  w.limit = (unsigned)symx_param("limit", 3);
  w.reissue = symx_param("reissue", 0) != 0;
  w.begin((unsigned)symx_param("pre", 2));
  for (unsigned k = 0; k < steps; k++) {
    w.step(M_ISSUE | M_RUN | M_TICK | M_ANSWER | M_FAIL);
    settled(w);
  }
  EXPECT("timed out");
}
