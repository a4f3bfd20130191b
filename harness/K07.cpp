// K07: a connection error fails every waiting request and leaves the channel usable.
#include "kworld.h"
#include <cstring>
using namespace kw;
KWORLD;

static void done(int i, const Expected<ser4cpp::rseq_t> &e) {
  if (W->failing) {
    CHECK(W->r[i].out == CONNECTION, "a connection error is reported as something else");
    const IException &x = e.get_exception<ConnectionException>();
    CHECK(x.get_message() == W->failure, "a connection error loses its message");
  } else
    CHECK(W->r[i].out != CONNECTION, "a connection error is reported although there is none");
}
static void fail(World &w) {
  bool wait[MAXR];
  for (unsigned i = 0; i < MAXR; i++) wait[i] = false;
  unsigned n = w.settled; // later ones may still be on their way to the channel
  for (unsigned i = 0; i < n; i++) wait[i] = w.waiting(i);
  w.event();
  char text[3] = {(char)sx::range<uint8_t>("message", 32, 126), 'x', 0};
  w.error(text);
  CHECK(w.current < 0, "a request stays in flight when the connection fails");
  for (unsigned i = 0; i < n; i++)
    if (wait[i]) CHECK(w.r[i].calls == 1 && w.r[i].out == CONNECTION, "a waiting request survives a connection error");
  COVER("failed");
}
// afterwards a request is transmitted and completed as if nothing had happened
static void usable(World &w) {
  w.ex->run_many(64);
  w.limit = MAXR;
  w.reissue = false;
  for (unsigned i = 0; i < w.n; i++) w.r[i].again = false;
  while (w.current >= 0) { // what has been issued meanwhile
    uint8_t p[2] = {7, 8};
    unsigned i = (unsigned)w.current;
    w.answer_current(p, 2);
    CHECK(w.r[i].calls == 1 && w.r[i].out == DATA, "a request issued after a connection error is not completed");
    w.ex->run_many(64);
  }
  for (unsigned i = 0; i < w.n; i++) CHECK(w.r[i].calls == 1, "a request issued around a connection error is not completed");
  unsigned i = w.n;
  w.issue();
  w.ex->run_many(64);
  CHECK(w.current == (int)i && w.r[i].sends == 1, "a request issued after a connection error is not transmitted");
  uint8_t p[2] = {9, sx::any<uint8_t>("data")};
  w.answer_current(p, 2);
  CHECK(w.r[i].calls == 1 && w.r[i].out == DATA, "a request issued after a connection error is not completed");
}
HARNESS(k07_history) {
  unsigned steps = (unsigned)symx_param("steps", 3);
  World w;
  w.on_done = done;
  w.limit = (unsigned)symx_param("limit", 4);
  w.reissue = symx_param("reissue", 1) != 0;
  w.units = false;
  w.begin((unsigned)symx_param("pre", 2));
  for (unsigned k = 0; k < steps; k++) w.step(M_ISSUE | M_RUN | M_TICK | M_ANSWER | M_PARTIAL);
  ASSUME(w.nsent != 0);
  fail(w);
  unsigned more = (unsigned)symx_param("more", 0);
  for (unsigned k = 0; k < more; k++) w.step(M_ISSUE | M_RUN | M_TICK | M_FAIL | M_PARTIAL);
  if (more) w.error("again");
  usable(w);
  EXPECT("failed");
}
// any beginning of a frame may have been received
HARNESS(k07_partial) {
  World w;
  w.on_done = done;
  w.begin(2);
  unsigned n = sx::pick("bytes", 12);
  uint8_t b[12];
  for (unsigned k = 0; k < n; k++) b[k] = sx::any<uint8_t>("byte");
  if (n > 6) ASSUME(b[4] == 0 && b[5] > 6); // an unfinished frame
  if (n) w.feed(b, n);
  fail(w);
  usable(w);
  EXPECT("failed");
}
