// Entries of K01, K02, K05, K07 and K11 for many requests.
#include "kmany.h"
#include "modbus/messages/ReadCoilsRequest.h"
#include "modbus/messages/ReadCoilsResponse.h"
using namespace km;

static unsigned total() { return (unsigned)symx_param("n", 1100); }
// queued at once, then answered, but one is late; one more at a time afterwards
HARNESS(k02_many) {
  static Many *w;
  w = new Many;
  unsigned n = total(), late = sx::pick("late", 3) * (n / 2 - 1);
  uint8_t u = sx::any<uint8_t>("unit"), d = sx::any<uint8_t>("data");
  for (unsigned i = 0; i < n; i++) w->issue((uint8_t)(u + i), dur(1000));
  w->run();
  for (unsigned i = 0; i < n; i++) {
    CHECK(w->out && w->current == i && w->nsent == i + 1 && !w->strange, "requests are not transmitted one at a time in the order issued");
    if (i == late) { w->ex->advance_time(dur(1000)); w->run(); }
    else w->answer((uint8_t)(d + i));
  }
  CHECK(!w->out && w->nsent == n, "requests are not transmitted one at a time in the order issued");
  COVER("all");
  delete w;
  EXPECT("all");
}
// so many that the transaction identifiers come round again
HARNESS(k02_long) {
  static Many *w;
  w = new Many;
  unsigned n = (unsigned)symx_param("n", 66000), step = (unsigned)symx_param("step", 10);
  uint8_t d = sx::any<uint8_t>("data");
  uint16_t last = 0;
  for (unsigned i = 0; i < n;) {
    for (unsigned k = 0; k < step; k++) w->issue(1, dur(1000));
    w->run();
    for (unsigned k = 0; k < step; k++, i++) {
      CHECK(w->out && w->current == i && w->nsent == i + 1 && !w->strange, "requests are not transmitted one at a time in the order issued");
      uint16_t id = (uint16_t)(w->wire[0] << 8 | w->wire[1]);
      CHECK(i == 0 || id != last, "two consecutive transmissions carry the same transaction identifier");
      last = id;
      w->answer(d);
      CHECK(w->calls[i] == 1 && w->how[i] == ANSWERED, "a request of many is not completed by its answer");
    }
  }
  CHECK(!w->wrong, "a request of many is not completed by its answer");
  COVER("all");
  delete w;
  EXPECT("all");
}
HARNESS(k01_many) {
  static Many *w;
  w = new Many;
  unsigned n = total(), where = sx::pick("where", 3) * (n / 2 - 1), what = sx::pick("what", 4);
  uint8_t d = sx::any<uint8_t>("data");
  for (unsigned i = 0; i < n; i++) w->issue(1, dur(1000));
  w->run();
  unsigned lost = n;
  for (unsigned i = 0; i < n && w->out; i++) {
    if (i == where && what == 1) { w->ex->advance_time(dur(1000)); w->run(); }
    else if (i == where && what == 2) { lost = i; w->error(); }
    else if (i == where && what == 3) { // all late, one after the other
      for (unsigned k = i; k < n; k++) { w->ex->advance_time(dur(1000)); w->run(); }
    }
    else w->answer((uint8_t)(d + i));
  }
  for (unsigned i = 0; i < n; i++) {
    How h = i < where ? ANSWERED : what == 3 ? LATE : what == 2 ? LOST : i == where && what == 1 ? LATE : ANSWERED;
    CHECK(w->calls[i] == 1, "a request of many does not complete exactly once");
    CHECK(w->how[i] == h, "a request of many completes with the wrong outcome");
  }
  CHECK(!w->wrong, "a request of many completes with the wrong outcome");
  (void)lost;
  COVER("all");
  delete w;
  EXPECT("all");
}
HARNESS(k07_many) {
  static Many *w;
  w = new Many;
  unsigned n = total(), before = sx::pick("answered before", 2) * 7, rounds = 1 + sx::pick("rounds", 2);
  uint8_t d = sx::any<uint8_t>("data");
  for (unsigned r = 0; r < rounds; r++) {
    unsigned first = w->n;
    for (unsigned i = 0; i < n; i++) w->issue(1, dur(1000));
    w->run();
    for (unsigned i = 0; i < before; i++) w->answer(d);
    w->error();
    for (unsigned i = first; i < first + n; i++) CHECK(w->calls[i] == 1 && w->how[i] == (i < first + before ? ANSWERED : LOST), "a connection error does not fail every waiting request");
    CHECK(!w->out, "a request is transmitted although it has failed");
  }
  w->issue(1, dur(1000));
  w->run();
  CHECK(w->out && w->current == w->n - 1, "the channel cannot be used after a connection error");
  w->answer(d);
  CHECK(w->calls[w->n - 1] == 1 && w->how[w->n - 1] == ANSWERED, "the channel cannot be used after a connection error");
  COVER("all");
  delete w;
  EXPECT("all");
}
// many requests pending, many sessions with scheduled requests: a shutdown ends all of it
static unsigned polls;
HARNESS(k05_many) {
  static Many *w;
  w = new Many;
  unsigned n = total(), ns = (unsigned)symx_param("sessions", 300);
  bool half = sx::any_bool("in between");
  uint8_t d = sx::any<uint8_t>("data");
  static std::shared_ptr<IClientSession> s[300];
  static std::shared_ptr<IScheduledRequest> sr[300];
  polls = 0;
  for (unsigned i = 0; i < n; i++) w->issue(1, dur(1000));
  for (unsigned i = 0; i < ns; i++) {
    s[i] = w->ch->create_session(UnitIdentifier((uint8_t)i), dur(50));
    sr[i] = s[i]->schedule_request(ReadCoilsRequest{1, 2}, dur(70), [](const Expected<ReadCoilsResponse> &) { polls++; });
  }
  w->run();
  w->answer(d);
  w->ch->shutdown();
  if (half) w->issue(1, dur(1000));
  w->run();
  unsigned sent = w->nsent, called = w->nout, before = polls;
  CHECK(w->downs == 1, "the connection is not shut down");
  w->answer(d);
  w->error();
  for (unsigned i = 0; i < 3; i++) { w->ex->advance_time(dur(1000)); w->run(); }
  CHECK(w->nsent == sent && w->nout == called && polls == before, "a request is transmitted or a handler called after the shutdown");
  for (unsigned i = 0; i < ns; i++) CHECK(!sr[i]->is_running(), "a scheduled request is running after the shutdown");
  CHECK(!w->ch->create_session(UnitIdentifier(1), dur(1)), "a session is created after the shutdown");
  CHECK(w->ex->num_active() == 0 && w->ex->num_pending_timers() == 0, "something keeps running after the shutdown");
  for (unsigned i = 0; i < ns; i++) { s[i].reset(); sr[i].reset(); }
  COVER("all");
  delete w;
  EXPECT("all");
}
// the session with many requests and polls is shut down, the other one goes on
static unsigned handled[2];
HARNESS(k11_many) {
  static Many *w;
  w = new Many;
  unsigned n = total() / 5, down = sx::pick("down", 2);
  static std::shared_ptr<IClientSession> s[2];
  static std::shared_ptr<IScheduledRequest> sr[2][300];
  handled[0] = handled[1] = 0;
  for (unsigned k = 0; k < 2; k++) s[k] = w->ch->create_session(UnitIdentifier((uint8_t)(k + 1)), dur(50));
  w->n = MAX; // they send something else
  for (unsigned i = 0; i < n; i++) for (unsigned k = 0; k < 2; k++) {
    sr[k][i] = s[k]->schedule_request(ReadCoilsRequest{1, 2}, dur(9000000), [k](const Expected<ReadCoilsResponse> &) { handled[k]++; });
    s[k]->send_request(ReadCoilsRequest{(uint16_t)i, 2}, [k](const Expected<ReadCoilsResponse> &) { handled[k]++; });
  }
  w->run();
  s[down]->shutdown();
  w->run();
  unsigned before = handled[down];
  for (unsigned i = 0; i < 2 * n + 5; i++) { w->ex->advance_time(dur(50)); w->run(); } // everything is late
  CHECK(handled[down] == before, "a handler of a session is called after its shutdown");
  CHECK(handled[1 - down] == 2 * n, "the shutdown of a session affects another one");
  for (unsigned i = 0; i < n; i++) CHECK(!sr[down][i]->is_running() && sr[1 - down][i]->is_running(), "the shutdown of a session does not stop exactly its scheduled requests");
  for (unsigned i = 0; i < 300; i++) for (unsigned k = 0; k < 2; k++) sr[k][i].reset();
  w->ch->shutdown();
  w->run();
  s[0].reset(); s[1].reset();
  COVER("all");
  delete w;
  EXPECT("all");
}

// any duration up to many years
static dur any_dur(const char *name) { return dur((long)sx::range<uint64_t>(name, 1, 1ul << 60)); }
HARNESS(k04_any_timeout) {
  static Many *w;
  w = new Many;
  dur t = any_dur("timeout"), u = any_dur("timeout of the next"), early = any_dur("passed");
  ASSUME(early < t);
  w->issue(1, t);
  w->issue(1, u);
  w->run();
  CHECK(w->out && w->current == 0, "requests are waiting and none is on the wire");
  w->ex->advance_time(early);
  w->run();
  CHECK(w->calls[0] == 0, "a request times out before its time has elapsed");
  w->ex->advance_time(t - early);
  w->run();
  CHECK(w->calls[0] == 1 && w->how[0] == LATE, "a request does not time out although its time has elapsed");
  CHECK(w->calls[1] == 0 && w->out && w->current == 1, "requests are waiting and none is on the wire");
  w->ex->advance_time(u);
  w->run();
  CHECK(w->calls[1] == 1 && w->how[1] == LATE, "a request does not time out although its time has elapsed");
  COVER("all");
  delete w;
  EXPECT("all");
}
static unsigned runs[2];
HARNESS(k10_any_duration) {
  static Many *w;
  w = new Many;
  runs[0] = runs[1] = 0;
  auto s = w->ch->create_session(UnitIdentifier(1), dur(50));
  dur t = any_dur("duration"), u = any_dur("duration of the other"), early = any_dur("passed");
  ASSUME(early < t && early < u);
  bool absolute = sx::any_bool("absolute");
  auto now = w->ex->get_time();
  auto a = absolute ? s->start(now + t, [] { runs[0]++; }) : s->start(t, [] { runs[0]++; });
  auto b = absolute ? s->start(now + u, [] { runs[1]++; }) : s->start(u, [] { runs[1]++; });
  CHECK(a->expires_at() == now + t && b->expires_at() == now + u, "a timer reports another expiration than the requested one");
  w->ex->advance_time(early);
  w->run();
  CHECK(runs[0] == 0 && runs[1] == 0, "a timer runs its action before it expires");
  w->ex->advance_time(t - early);
  w->run();
  CHECK(runs[0] == 1 && runs[1] == (u <= t ? 1u : 0u), "a timer does not run its action when it expires");
  CHECK(a->expires_at() == now + t, "a timer reports another expiration than the requested one");
  if (u > t) { w->ex->advance_time(u - t); w->run(); COVER("later"); }
  CHECK(runs[0] == 1 && runs[1] == 1, "a timer does not run its action exactly once");
  delete w;
  EXPECT("later");
}
HARNESS(k09_any_period) {
  static Many *w;
  w = new Many;
  runs[0] = 0;
  w->n = MAX; // something else is sent
  auto s = w->ch->create_session(UnitIdentifier(1), dur(50));
  dur t = any_dur("timeout"), p = any_dur("period"), q = any_dur("period set"), early = any_dur("passed");
  bool set = sx::any_bool("the period is changed");
  auto r = s->schedule_request(ReadCoilsRequest{1, 2}, t, p, [](const Expected<ReadCoilsResponse> &e) { if (!e.is_valid()) runs[0]++; });
  w->run();
  CHECK(r->get_frequency() == p, "a scheduled request reports another period");
  if (set) { r->set_frequency(q); w->run(); p = q; CHECK(r->get_frequency() == q, "a scheduled request reports another period"); }
  w->ex->advance_time(t);
  w->run();
  CHECK(runs[0] == 1, "the outcome of a poll does not reach the handler");
  w->strange = false;
  ASSUME(early < p);
  w->ex->advance_time(early);
  w->run();
  CHECK(!w->strange, "a poll begins before the pause is over");
  w->ex->advance_time(p - early);
  w->run();
  CHECK(w->strange, "no poll begins although the pause is over");
  COVER("all");
  r.reset();
  s.reset();
  w->ch->shutdown();
  w->run();
  delete w;
  EXPECT("all");
}
