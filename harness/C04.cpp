// C04: a server accepts exactly the well-formed requests.
#include "judge.h"

template <int K> static bool fields(const uint8_t *p, size_t L, const typename T<K>::Req &r) {
  static Msg m;
  m.addr = be16(p + 1);
  m.qty = be16(p + 3);
  m.n = 1;
  m.v[0] = be16(p + 3);
  if (K == WMC) {
    m.n = (size_t)symx_concretize(m.qty);
    for (size_t i = 0; i < m.n; i++) m.v[i] = (p[6 + i / 8] >> (i % 8)) & 1;
  } else if (K == WMR) {
    m.n = (size_t)symx_concretize(m.qty);
    for (size_t i = 0; i < m.n; i++) m.v[i] = be16(p + 6 + 2 * i);
  }
  return eqReq(m, r);
}
template <int K> static void decide(size_t lo, size_t hi, bool all) {
  size_t L = pick_size("len", (unsigned)lo, (unsigned)hi, all);
  Bytes in(L);
  in.symbolic("byte");
  auto e = T<K>::ReqI::parse(in.r());
  Res r = classify(e);
  Verdict v = judge<K>(in.p, L);
  CHECK(r.value == v.ok, r.value ? "accepted bytes that are not a well-formed request" : "rejected a well-formed request");
  if (r.value) {
    COVER("accepted");
    CHECK((fields<K>(in.p, L, e.get())), "the parsed fields are not those the bytes denote");
  } else {
    COVER("rejected");
    CHECK(r.mod | r.malReq, "rejected with neither a Modbus exception nor a malformed request");
    CHECK(!(r.mod & r.malReq), "rejected in two ways at once");
    CHECK(!v.idvOnly | (r.mod & (r.type == ExceptionType::IllegalDataValue)), "illegal quantity, byte count or value not rejected with 'illegal data value'");
    CHECK(!v.malOnly | r.malReq, "wrong length or function code answered with a Modbus exception");
    CHECK(!r.mod | (r.type == ExceptionType::IllegalDataValue), "another Modbus exception than 'illegal data value'");
  }
  symx_observe("valid", r.value);
  symx_observe("mod", r.mod);
  EXPECT("accepted");
  EXPECT("rejected");
}
#define X(k, n) HARNESS(c04_##n) { decide<k>((size_t)symx_param("lo", 0), (size_t)symx_param("hi", 256), symx_param("all", 0) != 0); }
FOR_ALL_KINDS(X)
