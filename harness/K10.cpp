// K10: client timers fire once, no earlier than requested, unless cancelled; they leave the requests alone.
#include "kworld.h"
#include "modbus/ITimer.h"
#include "modbus/messages/WriteSingleRegisterRequest.h"
#include "modbus/messages/WriteSingleRegisterResponse.h"
using namespace kw;
KWORLD;

struct TimerModel {
  bool started, cancelled, expired, restart;
  steady_time_t at;
  unsigned runs;
  std::unique_ptr<modbus::ITimer> t;
};
static const unsigned MAXT = 4;
static TimerModel *tm_;
static unsigned nt, reqs, ends, maxt, maxr;
static std::shared_ptr<IClientSession> *ses;

static void start();
static void fired(unsigned i) {
  CHECK(++tm_[i].runs == 1, "a timer runs its action twice");
  CHECK(W->now() >= tm_[i].at, "a timer runs its action before it expires");
  CHECK(!tm_[i].cancelled || tm_[i].expired, "a cancelled timer runs its action");
  if (tm_[i].restart) start();
}
static void start() {
  if (nt >= maxt) return;
  unsigned i = nt++;
  uint16_t d = sx::range<uint16_t>("duration", 0, 1000);
  tm_[i].started = true;
  tm_[i].restart = nt < maxt && sx::any_bool("the action starts a timer");
  tm_[i].at = W->now() + dur(d);
  if (sx::any_bool("absolute")) tm_[i].t = (*ses)->start(tm_[i].at, [i] { fired(i); });
  else tm_[i].t = (*ses)->start(dur(d), [i] { fired(i); });
  CHECK(tm_[i].t->expires_at() == tm_[i].at, "a timer reports another expiration than the requested one");
}
static void expire() { for (unsigned i = 0; i < nt; i++) if (W->now() >= tm_[i].at) tm_[i].expired = true; }
static void request() {
  reqs++;
  (*ses)->send_request(WriteSingleRegisterRequest{RegisterValue{7, 9}}, dur(5000), [](const Expected<WriteSingleRegisterResponse> &e) {
    ends++;
    CHECK(ends <= reqs, "the handler of a request is called twice");
    CHECK(e.is_valid(), "a timer disturbs a request");
    CHECK(e.get().value.address == 7 && e.get().value.value == 9, "a timer disturbs a request");
  });
}
static void answer() {
  uint8_t p[5] = {6, 0, 7, 0, 9};
  W->receive(W->last_tid, 1, p, 5);
}
HARNESS(k10_history) {
  unsigned steps = (unsigned)symx_param("steps", 5), answered = 0;
  maxt = (unsigned)symx_param("timers", 2);
  World w;
  static TimerModel models[MAXT];
  tm_ = models;
  for (unsigned i = 0; i < MAXT; i++) tm_[i] = TimerModel{};
  nt = reqs = ends = 0;
  maxr = (unsigned)symx_param("requests", 0);
  auto s = w.ch->create_session(UnitIdentifier(1), dur(5000));
  ses = &s;
  for (unsigned k = 0, last = 9, e; k < steps; k++, last = e) {
    switch (e = sx::pick("event", maxr ? 6 : 4)) {
    case 0: ASSUME(nt < maxt); start(); expire(); break;
    case 1: {
      unsigned i = sx::pick("timer", maxt);
      ASSUME(i < nt && tm_[i].t && !tm_[i].cancelled);
      expire();
      tm_[i].t->cancel();
      tm_[i].cancelled = true;
      COVER("cancelled");
      if (sx::any_bool("the timer is destroyed")) tm_[i].t = nullptr;
      break;
    }
    case 2: {
      ASSUME(w.ex->num_pending_timers() != 0 && last != 2);
      w.ex->advance_time(dur(sx::range<uint16_t>("passed", 1, 1100)));
      expire();
      break;
    }
    case 3: ASSUME(w.ex->num_active() != 0); w.ex->run_one(); break;
    case 4: ASSUME(reqs < maxr); request(); break;
    case 5: ASSUME(w.nsent > answered); answered++; answer(); break;
    }
  }
  w.ex->run_many(16);
  while (answered < reqs) {
    CHECK(w.nsent > answered, "a timer keeps a request from being transmitted");
    answered++;
    answer();
    w.ex->run_many(16);
  }
  CHECK(ends == reqs && w.nsent == reqs, "a timer disturbs a request");
  for (unsigned k = 0; k < 2; k++) {
    w.ex->advance_time(dur(1001));
    expire();
    w.ex->run_many(16);
  }
  for (unsigned i = 0; i < nt; i++) {
    CHECK(tm_[i].cancelled || tm_[i].runs == 1 || (tm_[i].at > w.now()), "a timer never runs its action");
    if (tm_[i].runs) COVER("fired");
  }
  EXPECT("fired"); EXPECT("cancelled");
}
