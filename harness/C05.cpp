// C05: a client accepts exactly the well-formed responses to its request.
#include "msgs.h"

template <int K> static void decide(bool all) {
  static Msg rq, m;
  rq.addr = sx::any<uint16_t>("addr");
  typename T<K>::Req req{};
  if (K == WMC || K == WMR) {
    fill_values(rq, all ? pick_size("n", 1, MAXQ[K], false) : (const size_t[]){1, 9, MAXQ[K]}[sx::pick("n", 3)], K == WMC, "rv");
    rq.qty = (uint16_t)rq.n;
  } else if (K == WSC || K == WSR) {
    fill_values(rq, 1, K == WSC, "rv");
  } else rq.qty = sx::range<uint16_t>("qty", 1, MAXQ[K]);
  toReq(rq, req);
  typename T<K>::ReqI reqi(req);
  size_t L = pick_size("len", 0, 260, all);
  Bytes in(L);
  in.symbolic("byte");
  const uint8_t *p = in.p;
  auto e = T<K>::RespI::parse(reqi, in.r());
  Res r = classify(e);
  // what the bytes are
  bool exc = L == 2 && p[0] == (FC[K] | 0x80);
  bool ok, echo = true;
  if (K <= RIR) {
    unsigned want = isBits(K) ? (rq.qty + 7u) / 8 : rq.qty * 2u;
    ok = L >= 2 && ((p[0] == FC[K]) & (p[1] == L - 2) & (p[1] == want));
  } else {
    ok = L == 5 && p[0] == FC[K];
    if (L == 5) {
      unsigned x = be16(p + 3);
      if (K == WSC) ok = ok & ((x == 0) | (x == 0xFF00));
      // a response that does not repeat the request may also be refused
      echo = (be16(p + 1) == rq.addr) & (K == WSC ? x == (rq.v[0] ? 0xFF00u : 0u) : K == WSR ? x == rq.v[0] : x == rq.qty);
    }
  }
  CHECK(r.value + r.mod + r.malResp == 1 && !r.malReq, "not exactly one of response, Modbus exception and malformed response");
  if (exc) { COVER("exception"); CHECK(r.mod, "a well-formed exception response is not reported as such"); }
  else {
    CHECK(!r.mod, "a Modbus exception reported for bytes that are not an exception response");
    if (r.value) {
      COVER("accepted");
      CHECK(ok, "accepted bytes that are not a well-formed response to the request");
      if (K <= RIR) {
        m.addr = rq.addr;
        m.n = (size_t)symx_concretize(rq.qty);
        for (size_t i = 0; i < m.n; i++) m.v[i] = isBits(K) ? (uint16_t)((p[2 + i / 8] >> (i % 8)) & 1) : be16(p + 2 + 2 * i);
      } else {
        m.addr = be16(p + 1);
        m.qty = m.v[0] = be16(p + 3);
        m.n = 1;
      }
      CHECK(eqResp(m, e.get()), "the reported values are not those in the response");
    } else {
      COVER("malformed");
      CHECK(!(ok & echo), "a well-formed response is not accepted");
    }
  }
  symx_observe("valid", r.value);
  symx_observe("mod", r.mod);
  EXPECT("accepted");
  EXPECT("exception");
  EXPECT("malformed");
}
#define X(k, n) HARNESS(c05_##n) { decide<k>(symx_param("all", 0) != 0); }
FOR_ALL_KINDS(X)
