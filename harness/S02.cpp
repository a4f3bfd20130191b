// S02: bad requests are answered as Modbus prescribes, or not at all.
#include "sworld.h"
using namespace sw;

struct Setup {
  World w;
  std::shared_ptr<Session> s = std::make_shared<Session>();
  std::shared_ptr<Conn> c;
  uint8_t unit = 5;
  uint16_t tid;
  Setup() {
    w.ch->add_session(UnitIdentifier(unit), s);
    w.ch->start();
    w.run();
    c = w.connect();
    tid = sx::any<uint16_t>("transaction");
  }
  void deliver(uint8_t u, const uint8_t *p, unsigned n) {
    static uint8_t f[300];
    unsigned len = frame(f, tid, u, p, n);
    c->l->on_receive(ser4cpp::rseq_t(f, len));
    w.run();
  }
  void silent(const char *what) {
    CHECK(s->asked == 0, "a bad request reaches a session");
    CHECK(c->out.empty(), what);
  }
  void exception(uint8_t fc, uint8_t code, const char *what) {
    CHECK(s->asked == 0, "a bad request reaches a session");
    CHECK(c->out.size() == 1, what);
    uint8_t q[2] = {(uint8_t)(fc | 0x80), code};
    CHECK(is_frame(c->out[0], tid, unit, q, 2), what);
  }
};
template <int K> static void kind() {
  Setup x;
  size_t L = pick_size("len", 1, 253, symx_param("all", 0) != 0);
  Bytes in(L);
  in.symbolic("byte");
  in.p[0] = FC[K];
  Verdict v = judge<K>(in.p, L);
  symx_assume(!v.ok);
  x.deliver(x.unit, in.p, (unsigned)L);
  CHECK(x.s->asked == 0, "a bad request reaches a session");
  bool answered = !x.c->out.empty();
  CHECK(answered | !v.idvOnly, "an illegal quantity, byte count or value is not answered");
  CHECK(!answered | !v.malOnly, "a request of the wrong length is answered");
  if (answered) { x.exception(FC[K], 3, "an illegal quantity, byte count or value is not answered with one 'illegal data value'"); COVER("answered"); }
  else COVER("not answered");
  EXPECT("not answered");
}
#define X(k, n) HARNESS(s02_##n) { kind<k>(); }
FOR_ALL_KINDS(X)

HARNESS(s02_function) {
  Setup x;
  size_t L = pick_size("len", 1, 253, symx_param("all", 0) != 0);
  Bytes in(L);
  in.symbolic("byte");
  bool known = false;
  for (uint8_t f : FC) known = known | (in.p[0] == f);
  symx_assume(!known);
  x.deliver(x.unit, in.p, (unsigned)L);
  x.exception(in.p[0], 1, "an unsupported function is not answered with one 'illegal function'");
}
HARNESS(s02_empty) {
  Setup x;
  uint8_t p[1] = {0};
  x.deliver(x.unit, p, 0);
  x.silent("an empty request is answered");
}
HARNESS(s02_unit) {
  Setup x;
  uint8_t u = sx::any<uint8_t>("unit");
  ASSUME(u != x.unit);
  size_t L = sx::pick("len", 16);
  Bytes in(L);
  in.symbolic("byte");
  x.deliver(u, in.p, (unsigned)L);
  x.silent("a request for a unit without session is answered");
}
