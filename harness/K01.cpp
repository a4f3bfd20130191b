// K01: every client request completes exactly once.
#include "kworld.h"
using namespace kw;
KWORLD;

static void done(int i, const Expected<ser4cpp::rseq_t> &) {
  CHECK(W->r[i].calls == 1, "the handler of a request is called twice");
  CHECK(W->r[i].out != OTHER, "a request ends neither with its response nor with a timeout nor with an error");
}
HARNESS(k01_history) {
  unsigned steps = (unsigned)symx_param("steps", 4);
  World w;
  w.on_done = done;
  w.limit = (unsigned)symx_param("limit", 3);
  w.reissue = symx_param("reissue", 0) != 0;
  w.units = w.invalid = symx_param("invalid", 0) != 0;
  w.begin((unsigned)symx_param("pre", 2));
  for (unsigned k = 0; k < steps; k++) w.step(M_ISSUE | M_RUN | M_TICK | M_RECV | M_FAIL);
  w.drain();
  for (unsigned i = 0; i < w.n; i++) {
    CHECK(w.r[i].calls >= 1, "the handler of a request is never called");
    if (w.r[i].out == DATA) COVER("answered");
    if (w.r[i].out == TIMEOUT) COVER("timed out");
    if (w.r[i].out == CONNECTION) COVER("failed");
  }
  CHECK(w.idle() && w.ex->num_pending_timers() == 0, "the channel never comes to rest");
  EXPECT("answered"); EXPECT("timed out"); EXPECT("failed");
}
// the connection breaks in the middle of a frame, then another request is answered
HARNESS(k01_partial) {
  World w;
  w.on_done = done;
  w.units = false;
  w.begin(2);
  w.step(M_PARTIAL);
  w.step(M_FAIL | M_TICK | M_ANSWER);
  w.ex->run_many(8);
  w.issue();
  w.ex->run_many(8);
  w.step(M_ANSWER | M_PARTIAL | M_FAIL);
  w.drain();
  for (unsigned i = 0; i < w.n; i++) CHECK(w.r[i].calls == 1, "the handler of a request is never called");
}
// many requests at once
HARNESS(k01_burst) {
  World w;
  w.burst((unsigned)symx_param("requests", 8), true);
  EXPECT("burst");
}
