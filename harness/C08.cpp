// C08: a request is considered valid exactly when it is legal to send.
#include "msgs.h"

template <int K> static bool make(typename T<K>::Req &req, bool all) {
  static Msg m;
  m.addr = sx::any<uint16_t>("addr");
  if constexpr (K == WMC || K == WMR) {
    // every size class that can be represented; the values do not matter for validity
    size_t n = symx_param("big", 0) ? (size_t)symx_param("big", 0) : pick_size("n", 0, MAXQ[K] + 12u, all);
    m.n = n < 2100 ? n : 0;
    for (size_t i = 0; i < m.n; i++) m.v[i] = (uint16_t)(i * 37 & (K == WMC ? 1 : 0xffff));
    toReq(m, req);
    for (size_t i = m.n; i < n; i++) req.values.push_back(1);
    return n >= 1 && n <= MAXQ[K];
  }
  else if constexpr (K == WSC || K == WSR) { fill_values(m, 1, K == WSC, "value"); toReq(m, req); return true; }
  else {
    m.qty = sx::any<uint16_t>("qty");
    toReq(m, req);
    return (m.qty >= 1) & (m.qty <= MAXQ[K]);
  }
}
template <int K> static void valid() {
  typename T<K>::Req req{};
  bool legal = make<K>(req, symx_param("all", 0) != 0);
  typename T<K>::ReqI impl(req);
  bool v = impl.is_valid();
  CHECK(!v | legal, "an illegal request reports itself valid");
  CHECK(v | !legal, "a legal request reports itself invalid");
  auto c = impl.clone();
  CHECK(c->is_valid() == v, "the copy disagrees about validity");
  symx_observe("valid", v);
  if (v) {
    COVER("valid");
    size_t len = impl.get_message_length();
    CHECK(len <= 253, "a valid request does not fit in a Modbus payload");
    Bytes out(260);
    auto w = out.w();
    impl.build_message(w);
    CHECK(260 - w.length() == len, "number of bytes written differs from the announced length");
    Bytes in(len);
    memcpy(in.p, out.p, len);
    auto r = T<K>::ReqI::parse(in.r());
    CHECK(r.is_valid(), "the server rejects a valid request");
  } else COVER("invalid");
  EXPECT("valid");
  if (K != WSC && K != WSR) EXPECT("invalid");
}
#define X(k, n) HARNESS(c08_##n) { valid<k>(); }
FOR_ALL_KINDS(X)
// sizes whose low bits look legal
#define Y(k, n) HARNESS(c08_##n##_wrap) { typename T<k>::Req req{}; make<k>(req, false); typename T<k>::ReqI impl(req); CHECK(!impl.is_valid(), "an illegal request reports itself valid"); COVER("invalid"); EXPECT("invalid"); }
Y(WMC, write_multiple_coils)
Y(WMR, write_multiple_registers)
