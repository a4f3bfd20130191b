// S07: the functions a session does not implement are refused as illegal functions, the others are served.
#include "sworld.h"
using namespace sw;

static unsigned g_asked;
// a session that implements nothing, and one that implements one function
struct Bare : IServerSession {};
template <int K> struct Only : IServerSession {
  Msg *response = nullptr;
  Expected<typename T<K>::Resp> on_request(const typename T<K>::Req &) override {
    g_asked++;
    typename T<K>::Resp x{};
    toResp(*response, x);
    return Expected<typename T<K>::Resp>(x);
  }
};
static std::shared_ptr<IServerSession> session(unsigned k, Msg *m) {
  switch (k) {
#define X(K, n) case K: { auto s = std::make_shared<Only<K>>(); s->response = m; return s; }
  FOR_ALL_KINDS(X)
#undef X
  }
  return std::make_shared<Bare>();
}
template <int K> static void one() {
  static Msg rq, rs;
  World w;
  g_asked = 0;
  unsigned impl = sx::pick("implemented function", 9); // 8: none
  uint8_t u = sx::any<uint8_t>("unit");
  auto s = session(impl, &rs);
  w.ch->add_session(UnitIdentifier(u), s);
  w.ch->start();
  w.run();
  auto c = w.connect();
  rq.addr = sx::any<uint16_t>("addr");
  if (K == WMC || K == WMR || K == WSC || K == WSR) { fill_values(rq, K == WSC || K == WSR ? 1 : 1 + 8 * sx::pick("a few values", 2), K == WMC || K == WSC, "values"); rq.qty = (uint16_t)rq.n; }
  else { rq.qty = sx::any<uint16_t>("qty"); ASSUME(rq.qty >= 1 && rq.qty <= MAXQ[K]); }
  if (impl == K) { rs.addr = sx::any<uint16_t>("response addr"); fill_values(rs, 1, K == RC || K == RDI || K == WSC, "response values"); rs.qty = sx::any<uint16_t>("response qty"); }
  uint16_t tid = sx::any<uint16_t>("transaction");
  uint8_t p[300], f[300], q[300];
  unsigned n = (unsigned)spec_request(K, rq, p), m;
  c->l->on_receive(ser4cpp::rseq_t(f, frame(f, tid, u, p, n)));
  w.run();
  CHECK(c->out.size() == 1, "a request does not get exactly one response");
  if (impl == K) {
    CHECK(g_asked == 1, "a session is not asked for the function it implements, exactly once");
    m = (unsigned)spec_response(K, rs, q);
    COVER("served");
  } else {
    CHECK(g_asked == 0, "a session is asked for another function than the requested one");
    q[0] = (uint8_t)(FC[K] | 0x80); q[1] = 1; m = 2;
    COVER("refused");
  }
  CHECK(is_frame(c->out[0], tid, u, q, m), "a function a session does not implement is not refused as illegal, or another one not served");
  EXPECT("served"); EXPECT("refused");
}
#define X(k, n) HARNESS(s07_##n) { one<k>(); }
FOR_ALL_KINDS(X)
