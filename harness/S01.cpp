// S01: each request gets exactly one response, from the right session.
#include "sworld.h"
using namespace sw;

static const ExceptionType TYPES[] = {ExceptionType::IllegalFunction, ExceptionType::IllegalDataAddress, ExceptionType::IllegalDataValue, ExceptionType::ServerDeviceFailure, ExceptionType::Acknowledge, ExceptionType::ServerDeviceBusy, ExceptionType::MemoryParityError, ExceptionType::GatewayPathUnavailable, ExceptionType::GatewayTargetDeviceFailedToRespond};
static const uint8_t CODES[] = {1, 2, 3, 4, 5, 6, 8, 10, 11};

template <int K> static void one() {
  bool all = symx_param("all", 0) != 0;
  unsigned rounds = (unsigned)symx_param("rounds", 1);
  World w;
  auto a = std::make_shared<Session>(), b = std::make_shared<Session>();
  uint8_t ua = (uint8_t)symx_param("unit", 1), ub = (uint8_t)(ua + 1 + (K == WSR ? sx::pick("distance of the units", 2) * 7 : 0));
  w.ch->add_session(UnitIdentifier(ua), a);
  w.ch->add_session(UnitIdentifier(ub), b);
  w.ch->start();
  w.run();
  auto c = w.connect(), other = w.connect();
  unsigned expected = 0, asked[2] = {0, 0};
  static Msg rq, rs;
  for (unsigned k = 0; k < rounds; k++) {
    bool first = sx::any_bool("first session");
    auto &s = first ? a : b;
    auto &idle = first ? b : a;
    Answer how = (Answer)sx::pick("answer", 3);
    if (how == VALUE || !(K == WMC || K == WMR)) any_request<K>(rq, all && how == VALUE);
    else {
      rq.addr = sx::any<uint16_t>("addr");
      fill_values(rq, 1 + 8 * sx::pick("a few values", 2), K == WMC, "values");
      rq.qty = (uint16_t)rq.n;
    }
    s->request = &rq; s->kind = K; s->answer = how;
    uint16_t tid = sx::any<uint16_t>("transaction");
    unsigned type = how == MODBUS ? sx::pick("exception", sizeof CODES) : 0;
    s->type = TYPES[type];
    if (how == VALUE) {
      any_response<K>(rs, all);
      s->response = &rs;
    }
    uint8_t p[300], f[300];
    unsigned n = (unsigned)spec_request(K, rq, p);
    unsigned len = frame(f, tid, first ? ua : ub, p, n);
    c->l->on_receive(ser4cpp::rseq_t(f, len));
    w.run();
    asked[first ? 0 : 1]++;
    CHECK(a->asked == asked[0] && b->asked == asked[1], "a request does not reach exactly the session of its unit, exactly once");
    (void)idle;
    if (how == OTHER_ERROR) { CHECK(c->out.size() == expected, "an error that is not a Modbus exception is answered"); COVER("not answered"); }
    else {
      expected++;
      CHECK(c->out.size() == expected, "a request does not get exactly one response");
      uint8_t q[300];
      unsigned m;
      if (how == MODBUS) { q[0] = (uint8_t)(FC[K] | 0x80); q[1] = CODES[type]; m = 2; COVER("exception"); }
      else { m = (unsigned)spec_response(K, rs, q); COVER("answered"); }
      CHECK(is_frame(c->out.back(), tid, first ? ua : ub, q, m), "the response is not the encoding of what the session returned, with the identifiers of the request");
    }
    CHECK(other->out.empty(), "a response is sent on another connection");
  }
  EXPECT("answered"); EXPECT("exception"); EXPECT("not answered");
}
#define X(k, n) HARNESS(s01_##n) { one<k>(); }
FOR_ALL_KINDS(X)

// any unit: the session of the unit, if it has one
HARNESS(s01_units) {
  World w;
  auto a = std::make_shared<Session>();
  uint8_t ua = sx::any<uint8_t>("unit"), u = sx::any<uint8_t>("requested unit");
  w.ch->add_session(UnitIdentifier(ua), a);
  w.ch->start();
  w.run();
  auto c = w.connect();
  uint8_t p[5] = {6, sx::any<uint8_t>("b1"), sx::any<uint8_t>("b2"), sx::any<uint8_t>("b3"), sx::any<uint8_t>("b4")}, f[20];
  static Msg m;
  m.addr = be16(p + 1);
  m.n = 1;
  m.v[0] = be16(p + 3);
  a->request = a->response = &m; a->kind = WSR;
  uint16_t tid = sx::any<uint16_t>("transaction");
  unsigned len = frame(f, tid, u, p, 5);
  c->l->on_receive(ser4cpp::rseq_t(f, len));
  w.run();
  if (a->asked) {
    COVER("own");
    CHECK(u == ua && a->asked == 1 && c->out.size() == 1, "a request does not reach exactly the session of its unit, exactly once");
    CHECK(is_frame(c->out[0], tid, u, p, 5), "the response is not the encoding of what the session returned, with the identifiers of the request");
  } else {
    COVER("foreign");
    CHECK(u != ua && c->out.empty(), "a request does not reach exactly the session of its unit, exactly once");
  }
  EXPECT("own"); EXPECT("foreign");
}
