// K09: scheduled requests poll one at a time with the configured pause. The real session and scheduled request over a
// channel that only records what it is asked to send.
#include "msgs.h"
#include <atomic>
#include "client/channel/IClientChannelImpl.h"
#include "client/session/ClientSessionImpl.h"
#include "exe4cpp/MockExecutor.h"
#include "logging/Logger.h"
#include "modbus/client/IScheduledRequest.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/TimeoutException.h"
using dur = exe4cpp::duration_t;

struct Model {
  std::shared_ptr<exe4cpp::MockExecutor> ex;
  // what is true once the queued commands have been carried out
  bool half, running, fresh; // fresh: started since the last poll ended
  uint16_t period;
  // polls
  unsigned polls, ended, reported;
  bool flying;
  steady_time_t end;
  uint16_t pause; // the period when the last poll ended
  ResponseHandler<ser4cpp::rseq_t> answer;
  unsigned outcome; // that is being reported
  uint8_t bits;
  uint16_t timeout;
  unsigned kind;
  bool reenter;
  std::shared_ptr<IScheduledRequest> sr;
} *m;
static Msg rq;
static const uint8_t unit_value = 17;

struct Channel final : IClientChannelImpl {
  std::shared_ptr<IClientSession> create_session(const UnitIdentifier &, const exe4cpp::duration_t &) override { return nullptr; }
  void shutdown() override {}
  void send_request(const UnitIdentifier &u, const IMessage &r, const exe4cpp::duration_t &t, ResponseHandler<ser4cpp::rseq_t> h, std::shared_ptr<const std::atomic<bool>>) override {
    CHECK(m->running, "a poll is issued although the scheduled request is stopped");
    CHECK(!m->flying, "a poll is issued while another one is in flight");
    CHECK(m->polls == 0 || m->fresh || m->ex->get_time() >= m->end + dur(m->pause), "a poll is issued before the pause is over");
    CHECK(u.get_value() == unit_value, "a poll is issued for another unit");
    CHECK(t == dur(m->timeout), "a poll is issued with another timeout");
    uint8_t b[16], o[16];
    ser4cpp::wseq_t w(b, sizeof b);
    size_t n = spec_request((int)m->kind, rq, o);
    CHECK(r.is_valid() && r.get_message_length() == n, "another request is polled than the scheduled one");
    r.build_message(w);
    CHECK(same(b, o, n), "another request is polled than the scheduled one");
    m->fresh = false;
    m->flying = true;
    m->polls++;
    m->answer = h;
  }
};
// the commands are queued between two markers: what they change here becomes true together with their own effect
static void begin() { m->ex->post([] { m->half = true; }); }
static void start() {
  m->ex->post([] { m->half = true; if (!m->running) { m->running = true; m->fresh = true; } });
  m->sr->start();
  m->ex->post([] { m->half = false; });
}
static void stop() { begin(); m->sr->stop(); m->ex->post([] { m->running = false; m->half = false; }); }
static void period() {
  uint16_t p = sx::range<uint16_t>("pause", 1, 1000);
  begin();
  m->sr->set_frequency(dur(p));
  m->ex->post([p] { m->period = p; m->half = false; });
}
template <class R> static void report(const Expected<R> &e) {
  m->reported++;
  CHECK(m->reported == m->ended, "an outcome is reported twice or without a poll");
  Res r = classify(e);
  switch (m->outcome) {
  case 0: CHECK(r.value && e.get().values.size() == 1 && (uint16_t)e.get().values[0].value == m->bits && e.get().values[0].address == rq.addr, "the outcome of a poll is altered"); break;
  case 1: CHECK(!r.value && e.template has_exception<TimeoutException>(), "the outcome of a poll is altered"); break;
  case 2: CHECK(!r.value && e.template has_exception<ConnectionException>(), "the outcome of a poll is altered"); break;
  case 3: CHECK(r.mod && r.type == ExceptionType::ServerDeviceBusy, "the outcome of a poll is altered"); break;
  }
  if (m->reenter) switch (sx::pick("inside the handler", 5)) {
    case 1: start(); break;
    case 2: stop(); break;
    case 3: stop(); start(); break;
    case 4: period(); break;
  }
}
static void end_poll(unsigned how) {
  COVER("poll ended");
  m->flying = false;
  m->ended++;
  m->end = m->ex->get_time();
  m->pause = m->period;
  m->fresh = false;
  m->outcome = how;
  auto h = m->answer;
  m->answer = nullptr;
  bool bits = isBits((int)m->kind);
  m->bits = bits ? sx::any_bool("value") : sx::any<uint8_t>("value");
  uint8_t p[4] = {FC[m->kind], (uint8_t)(bits ? 1 : 2), (uint8_t)(bits ? m->bits : 0), m->bits}, x[2] = {(uint8_t)(FC[m->kind] | 0x80), 6};
  if (how == 0) h(Expected<ser4cpp::rseq_t>(ser4cpp::rseq_t(p, bits ? 3 : 4)));
  if (how == 1) h(Expected<ser4cpp::rseq_t>::from_exception(TimeoutException{}));
  if (how == 2) h(Expected<ser4cpp::rseq_t>::from_exception(ConnectionException{"lost"}));
  if (how == 3) h(Expected<ser4cpp::rseq_t>(ser4cpp::rseq_t(x, 2)));
  CHECK(m->reported == m->ended, "the outcome of a poll is not reported");
}
static void settled() {
  m->ex->check_for_expired_timers();
  if (m->ex->num_active()) return;
  CHECK(m->sr->is_running() == m->running, "a scheduled request does not know whether it is running");
  CHECK(m->sr->get_frequency() == dur(m->period), "a changed period is lost");
  unsigned timers = (unsigned)m->ex->num_pending_timers();
  CHECK(timers + (m->flying ? 1 : 0) <= 1, "more than one poll or pause is pending");
  if (m->running) CHECK(m->flying || (m->polls && m->ex->get_time() < m->end + dur(m->pause)), "a running scheduled request does not poll although the pause is over");
  else CHECK(timers == 0, "a stopped scheduled request keeps a timer");
}
HARNESS(k09_history) {
  unsigned steps = (unsigned)symx_param("steps", 4), pre = (unsigned)symx_param("pre", 0);
  static Model model;
  model = Model{};
  m = &model;
  m->ex = std::make_shared<exe4cpp::MockExecutor>();
  auto ch = std::make_shared<Channel>();
  uint16_t deflt = sx::range<uint16_t>("default timeout", 1, 1000), own = sx::range<uint16_t>("timeout", 1, 1000);
  auto s = std::make_shared<ClientSessionImpl>(m->ex, std::make_shared<Logger>(std::make_shared<spdlog::logger>("k")), ch, UnitIdentifier(unit_value), dur(deflt));
  m->kind = (unsigned)symx_param("kind", RC);
  m->reenter = symx_param("reenter", 0) != 0;
  rq.addr = sx::any<uint16_t>("addr");
  rq.qty = 1;
  bool given = sx::any_bool("explicit timeout");
  m->timeout = given ? own : deflt;
  m->period = sx::range<uint16_t>("pause", 1, 1000);
  m->running = m->fresh = true;
#define SCHED(K) case K: { T<K>::Req r{}; toReq(rq, r); m->sr = given ? s->schedule_request(r, dur(own), dur(m->period), report<T<K>::Resp>) : s->schedule_request(r, dur(m->period), report<T<K>::Resp>); break; }
  switch (m->kind) { SCHED(RC) SCHED(RDI) SCHED(RHR) SCHED(RIR) }
  if (pre) {
    m->ex->run_many(16);
    CHECK(m->polls == 1, "a scheduled request is not polled immediately");
  }
  if (pre > 1) end_poll(0);
  enum { RUN, TICK, END, START, STOP, PERIOD, NEV };
  unsigned last = NEV;
  for (unsigned k = 0; k < steps; k++) {
    unsigned e = sx::pick("event", NEV);
    switch (e) {
    case RUN: ASSUME(m->ex->num_active() != 0); do m->ex->run_one(); while (m->half); break;
    case TICK: {
      ASSUME(last != TICK && m->ex->num_pending_timers() != 0);
      uint16_t d = sx::range<uint16_t>("passed", 1, 2000);
      m->ex->advance_time(dur(d));
      break;
    }
    case END: ASSUME(m->flying); end_poll(sx::pick("outcome", 4)); break;
    case START: ASSUME(last != START || k < 2); start(); break;
    case STOP: ASSUME(last != STOP); stop(); break;
    case PERIOD: ASSUME(last != PERIOD); period(); break;
    }
    last = e;
    settled();
  }
  m->ex->run_many(64);
  settled();
  m->ex->advance_time(dur(5000));
  m->ex->run_many(64);
  settled();
  if (m->polls > 1) COVER("polled again");
  EXPECT("poll ended");
}
