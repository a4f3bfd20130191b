// C03: encoded requests and responses are byte for byte what the Modbus application protocol prescribes, whatever
// was in the output buffer before.
#include "msgs.h"

template <int K, bool RESP> static void wire() {
  static Msg m;
  if (RESP) any_response<K>(m, symx_param("all", 0) != 0);
  else any_request<K>(m, symx_param("all", 0) != 0);
  const size_t room = 260;
  Bytes out(room), want(room);
  uint8_t before = sx::any<uint8_t>("previous buffer contents");
  memset(out.p, before, room);
  size_t n = RESP ? spec_response(K, m, want.p) : spec_request(K, m, want.p);
  auto w = out.w();
  if (RESP) {
    typename T<K>::Resp r{};
    toResp(m, r);
    typename T<K>::RespI(r).build_message(w);
  } else {
    typename T<K>::Req r{};
    toReq(m, r);
    typename T<K>::ReqI(r).build_message(w);
  }
  CHECK(room - w.length() == n, "wrong number of bytes encoded");
  CHECK(out.p[0] == want.p[0], "wrong function code");
  CHECK(same(out.p, want.p, n < 6 ? n : 6), "wrong header bytes");
  CHECK(same(out.p, want.p, n), "wrong payload bytes");
  bool rest = true;
  for (size_t i = n; i < room; i++) rest = rest & (out.p[i] == before);
  CHECK(rest, "bytes after the message were changed");
  symx_observe("n", n);
  COVER("encoded");
  EXPECT("encoded");
}
#define X(k, n) HARNESS(c03_##n##_request) { wire<k, false>(); } HARNESS(c03_##n##_response) { wire<k, true>(); }
FOR_ALL_KINDS(X)
