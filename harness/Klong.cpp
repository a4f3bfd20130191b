// Entries of K01, K03, K04, K06, K07, K08, K09, K11 and K12 for long histories on one channel (more than a thousand rounds).
#include "kmany.h"
#include "modbus/messages/ReadCoilsRequest.h"
#include "modbus/messages/ReadCoilsResponse.h"
using namespace km;

static const uint16_t TIMES[] = {2, 5000};
static unsigned rounds() { return (unsigned)symx_param("n", 1100); }
namespace { struct Bad final : IMessage {
  std::unique_ptr<IMessage> clone() const override { return std::make_unique<Bad>(); }
  bool is_valid() const override { return false; }
  size_t get_message_length() const override { return 3; }
  void build_message(ser4cpp::wseq_t &b) const override { b[0] = b[1] = b[2] = 0; b.advance(3); }
}; }
static void receive(Many *w, const uint8_t *b, unsigned n) {
  auto l = w->c->listener.lock();
  if (l) l->on_receive(ser4cpp::rseq_t(b, n));
  w->run();
}
// every round ends in another way
HARNESS(k01_long) {
  static Many *w;
  w = new Many;
  unsigned n = rounds(), phase = sx::pick("phase", 5);
  uint8_t d = sx::any<uint8_t>("data");
  for (unsigned i = 0; i < n; i++) {
    unsigned how = (i + phase) % 5, a = w->n;
    w->issue(1, dur(1000));
    w->issue(2, dur(1000));
    w->run();
    How h = ANSWERED;
    if (how == 0 || how == 4) { w->answer(d); w->answer(d); }
    if (how == 1) { w->ex->advance_time(dur(1000)); w->run(); w->ex->advance_time(dur(1000)); w->run(); h = LATE; }
    if (how == 2) { w->error(); h = LOST; }
    if (how == 3) { w->ex->advance_time(dur(1000)); w->run(); w->answer(d); h = LATE; }
    CHECK(w->calls[a] == 1 && w->calls[a + 1] == 1, "a request of many does not complete exactly once");
    CHECK(w->how[a] == h && w->how[a + 1] == (how == 3 ? ANSWERED : h), "a request of many completes with the wrong outcome");
  }
  CHECK(!w->wrong && w->nout == 2 * n, "a request of many completes with the wrong outcome");
  COVER("all");
  delete w;
  EXPECT("all");
}
// many frames that answer nothing, in every round
HARNESS(k03_long) {
  static Many *w;
  w = new Many;
  unsigned n = rounds();
  uint8_t d = sx::any<uint8_t>("data"), junk = sx::any<uint8_t>("stray data");
  uint16_t off = sx::range<uint16_t>("transaction of the stray frames", 1, 60000);
  for (unsigned i = 0; i < n; i++) {
    w->issue((uint8_t)(i % 247 + 1), dur(1000));
    w->run();
    CHECK(w->out && w->current == i, "requests are waiting and none is on the wire");
    uint16_t tid = (uint16_t)((w->wire[0] << 8 | w->wire[1]) + off);
    for (unsigned k = 0; k < 4; k++) {
      uint8_t r[8] = {(uint8_t)(tid >> 8), (uint8_t)tid, 0, 0, 0, 2, w->wire[6], junk};
      receive(w, r, 8);
      CHECK(w->calls[i] == 0, "a request is completed by a frame that does not answer it");
    }
    w->answer((uint8_t)(d + i));
    CHECK(w->calls[i] == 1 && w->how[i] == ANSWERED && !w->wrong, "a request is not completed by its own answer");
    w->answer(junk); // twice
    CHECK(w->calls[i] == 1 && w->nout == i + 1, "a request is completed by a frame that does not answer it");
  }
  COVER("all");
  delete w;
  EXPECT("all");
}
// late again and again
HARNESS(k04_long) {
  static Many *w;
  w = new Many;
  unsigned n = rounds();
  uint16_t t = TIMES[sx::pick("time", 2)];
  bool behind = sx::any_bool("the next one waits");
  if (behind) w->issue(1, dur(t));
  for (unsigned i = 0; i < n; i++) {
    w->issue(1, dur(t));
    w->run();
    CHECK(w->out && w->current == i, "requests are waiting and none is on the wire");
    w->ex->advance_time(dur(t - 1));
    w->run();
    CHECK(w->calls[i] == 0, "a request times out before its time has elapsed");
    w->ex->advance_time(dur(1));
    w->run();
    CHECK(w->calls[i] == 1 && w->how[i] == LATE, "a request does not time out although its time has elapsed");
  }
  COVER("all");
  delete w;
  EXPECT("all");
}
// invalid requests between valid ones
static unsigned refused;
HARNESS(k06_long) {
  static Many *w;
  w = new Many;
  unsigned n = rounds();
  refused = 0;
  uint8_t d = sx::any<uint8_t>("data");
  bool busy = sx::any_bool("one is on the wire");
  for (unsigned i = 0; i < n; i++) {
    if (busy) w->issue(1, dur(1000));
    for (unsigned k = 0; k < 3; k++) {
      w->ch->send_request(UnitIdentifier(1), Bad(), dur(1000), [](const Expected<ser4cpp::rseq_t> &e) {
        refused++;
        CHECK(e.has_exception<MalformedModbusRequestException>(), "an invalid request does not fail with a malformed-request exception");
      });
    }
    w->run();
    CHECK(refused == 3 * i + 3, "an invalid request is not refused exactly once");
    if (!busy) w->issue(1, dur(1000));
    w->run();
    CHECK(!w->strange && w->nsent == i + 1 && w->out && w->current == i, "an invalid request is transmitted or delays another one");
    w->answer(d);
    CHECK(w->calls[i] == 1 && w->how[i] == ANSWERED, "an invalid request affects another one");
  }
  CHECK(refused == 3 * n, "an invalid request is not refused exactly once");
  COVER("all");
  delete w;
  EXPECT("all");
}
HARNESS(k07_long) {
  static Many *w;
  w = new Many;
  unsigned n = rounds();
  uint8_t d = sx::any<uint8_t>("data");
  bool works = sx::any_bool("a request succeeds in between");
  for (unsigned i = 0; i < n; i++) {
    unsigned a = w->n;
    for (unsigned k = 0; k < 3; k++) w->issue(1, dur(1000));
    w->run();
    CHECK(w->out && w->current == a, "the channel cannot be used after a connection error");
    if (works) w->answer(d);
    w->error();
    for (unsigned k = 0; k < 3; k++) CHECK(w->calls[a + k] == 1 && w->how[a + k] == (works && k == 0 ? ANSWERED : LOST), "a connection error does not fail every waiting request");
    CHECK(!w->out, "a request is transmitted although it has failed");
  }
  CHECK(w->ex->num_pending_timers() == 0, "the time limit of a failed request keeps running");
  COVER("all");
  delete w;
  EXPECT("all");
}
// many requests through one session
static unsigned done, fine, late;
static void session_answer(Many *w, uint8_t bits) {
  uint8_t r[10] = {w->wire[0], w->wire[1], 0, 0, 0, 4, w->wire[6], 1, 1, bits};
  receive(w, r, 10);
}
HARNESS(k08_long) {
  static Many *w;
  w = new Many;
  unsigned n = rounds();
  done = fine = late = 0;
  w->n = MAX; // something else is sent
  w->raw = true;
  uint8_t bits = sx::any<uint8_t>("bits"), unit = sx::any<uint8_t>("unit");
  auto s = w->ch->create_session(UnitIdentifier(unit), dur(50));
  for (unsigned i = 0; i < n; i++) {
    unsigned sent = w->nsent;
    s->send_request(ReadCoilsRequest{(uint16_t)i, 8}, [bits, i](const Expected<ReadCoilsResponse> &e) {
      done++;
      if (e.is_valid() && e.get().values.size() == 8) {
        unsigned v = 0;
        for (unsigned k = 0; k < 8; k++) v |= (unsigned)e.get().values[k].value << k;
        if (v == bits && e.get().values[0].address == i) fine++;
      }
    });
    w->run();
    CHECK(w->nsent == sent + 1 && w->wire[6] == unit, "a session sends a request for another unit or not at all");
    session_answer(w, bits);
    CHECK(done == i + 1 && fine == i + 1, "a session does not deliver the result of the request");
    s->send_request(ReadCoilsRequest{(uint16_t)i, 8}, [](const Expected<ReadCoilsResponse> &e) { if (e.has_exception<TimeoutException>()) late++; });
    w->run();
    w->ex->advance_time(dur(49));
    w->run();
    CHECK(late == i, "a session applies another timeout than its default");
    w->ex->advance_time(dur(1));
    w->run();
    CHECK(late == i + 1, "a session applies another timeout than its default");
  }
  s.reset();
  w->ch->shutdown();
  w->run();
  COVER("all");
  delete w;
  EXPECT("all");
}
// polling that goes on for long, stopped and started again, with every outcome
static unsigned reports, good;
HARNESS(k09_long) {
  static Many *w;
  w = new Many;
  unsigned n = rounds();
  reports = good = 0;
  w->n = MAX;
  w->raw = true;
  uint16_t p = TIMES[sx::pick("period", 2)];
  uint8_t bits = sx::any<uint8_t>("bits");
  bool again = sx::any_bool("stopped and started");
  unsigned what = sx::pick("outcome", 4);
  auto s = w->ch->create_session(UnitIdentifier(1), dur(50));
  auto r = s->schedule_request(ReadCoilsRequest{1, 8}, dur(70), dur(p), [](const Expected<ReadCoilsResponse> &e) { reports++; if (e.is_valid()) good++; });
  w->run();
  unsigned answered = 0;
  for (unsigned i = 0; i < n; i++) {
    CHECK(w->nsent == i + 1, "no poll begins although the pause is over");
    unsigned o = what == 3 ? i % 3 : what;
    if (o == 0) { session_answer(w, bits); answered++; }
    if (o == 1) { w->ex->advance_time(dur(70)); w->run(); }
    if (o == 2) w->error();
    CHECK(reports == i + 1 && good == answered, "the outcome of a poll does not reach the handler exactly once");
    CHECK(r->is_running(), "a scheduled request ends although nobody stopped it");
    w->ex->advance_time(dur(p - 1));
    w->run();
    CHECK(w->nsent == i + 1, "a poll begins before the pause is over");
    if (again) {
      r->stop();
      w->run();
      CHECK(!r->is_running(), "a stopped scheduled request is running");
      w->ex->advance_time(dur(p));
      w->run();
      CHECK(w->nsent == i + 1, "a poll begins although the scheduled request is stopped");
      r->start();
    } else w->ex->advance_time(dur(1));
    w->run();
  }
  r.reset();
  s.reset();
  w->ch->shutdown();
  w->run();
  COVER("all");
  delete w;
  EXPECT("all");
}
// timers of one session or of the channel, more than any counter of eight bits
static unsigned fired;
HARNESS(k10_long) {
  static Many *w;
  w = new Many;
  unsigned n = rounds();
  fired = 0;
  uint16_t t = TIMES[sx::pick("time", 2)];
  bool cancel = sx::any_bool("every other one is cancelled");
  auto s = w->ch->create_session(UnitIdentifier(1), dur(50));
  static std::unique_ptr<ITimer> at[2000];
  unsigned due = 0;
  for (unsigned i = 0; i < n; i++) { at[i] = s->start(dur(t), [] { fired++; }); due++; }
  for (unsigned i = 0; i < n; i += 2) if (cancel) { at[i]->cancel(); due--; }
  w->run();
  w->ex->advance_time(dur(t - 1));
  w->run();
  CHECK(fired == 0, "a timer runs its action before it expires");
  w->ex->advance_time(dur(1));
  w->run();
  CHECK(fired == due, "the timers that expire do not all run their action exactly once");
  for (unsigned i = 0; i < n; i++) { // one after the other
    auto x = s->start(dur(t), [] { fired++; });
    w->ex->advance_time(dur(t - 1));
    w->run();
    CHECK(fired == due, "a timer runs its action before it expires");
    w->ex->advance_time(dur(1));
    w->run();
    CHECK(fired == ++due, "a timer does not run its action when it expires");
  }
  for (unsigned i = 0; i < n; i++) at[i].reset();
  s.reset();
  COVER("all");
  delete w;
  EXPECT("all");
}
// sessions come and go
static unsigned heard;
HARNESS(k11_long) {
  static Many *w;
  w = new Many;
  unsigned n = rounds();
  heard = 0;
  w->n = MAX;
  w->raw = true;
  bool drop = sx::any_bool("the session is dropped without shutdown");
  auto other = w->ch->create_session(UnitIdentifier(9), dur(50));
  unsigned want = 0;
  for (unsigned i = 0; i < n; i++) {
    auto s = w->ch->create_session(UnitIdentifier(1), dur(50));
    CHECK(bool(s), "no session is created");
    unsigned a = want;
    auto r = s->schedule_request(ReadCoilsRequest{1, 8}, dur(7000), [](const Expected<ReadCoilsResponse> &) { heard += 1000; });
    s->send_request(ReadCoilsRequest{1, 8}, [](const Expected<ReadCoilsResponse> &) { heard += 1000; });
    if (!drop) s->shutdown();
    w->run();
    other->send_request(ReadCoilsRequest{1, 8}, [](const Expected<ReadCoilsResponse> &) { heard++; });
    w->run();
    if (drop) { s->shutdown(); w->run(); }
    CHECK(!r->is_running(), "the shutdown of a session does not stop exactly its scheduled requests");
    for (unsigned k = 0; k < 4; k++) { w->ex->advance_time(dur(7000)); w->run(); }
    want++;
    CHECK(heard == a + 1, "a handler of a session is called after its shutdown or another session is affected");
  }
  other.reset();
  w->ch->shutdown();
  w->run();
  COVER("all");
  delete w;
  EXPECT("all");
}
