// M01: outgoing frames carry a correct TCP header and never exceed 260 bytes.
#include "mbap.h"

static void framed(const IMessage &m, size_t len, const uint8_t *bytes) {
  uint8_t unit = sx::any<uint8_t>("unit");
  uint16_t tid = sx::any<uint16_t>("tid");
  Bytes out(260);
  auto w = out.w();
  auto r = MbapMessage::build_message(UnitIdentifier{unit}, TransactionIdentifier{tid}, m, w);
  const uint8_t *p = r;
  size_t n = r.length();
  size_t want = len > 253 ? 253 : len;
  CHECK(n <= 260, "a frame is longer than 260 bytes");
  CHECK(p == out.p, "the frame does not start at the start of the buffer");
  CHECK(n == want + 7, "the frame is not header plus message");
  CHECK(be16(p) == tid, "wrong transaction identifier");
  CHECK(be16(p + 2) == 0, "wrong protocol identifier");
  CHECK(be16(p + 4) == n - 6, "the length field is not the number of bytes that follow it");
  CHECK(p[6] == unit, "wrong unit identifier");
  CHECK(same(p + 7, bytes, want), "the frame does not contain the message");
  COVER("framed");
  if (len > 253) COVER("truncated");
  symx_observe("n", n);
  symx_observe("tid", tid);
  EXPECT("framed");
}
HARNESS(m01_any_length) {
  static uint8_t data[70000];
  static const uint32_t N[] = {0, 1, 2, 3, 5, 6, 7, 100, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 259, 260, 261, 500, 65534, 65535, 65536, 65537, 70000};
  size_t len = N[sx::pick("len", 27)];
  symx_make_symbolic(data, 300, "bytes");
  Fake m(len, data);
  framed(m, len, data);
  EXPECT("truncated");
}
HARNESS(m01_every_length) {
  static uint8_t data[300];
  size_t len = (size_t)symx_concretize(sx::range<uint16_t>("len", 0, 300));
  symx_make_symbolic(data, 300, "bytes");
  Fake m(len, data);
  framed(m, len, data);
}
template <int K> static void req() {
  static Msg m;
  static uint8_t o[600];
  any_request<K>(m, false);
  typename T<K>::Req r{};
  toReq(m, r);
  typename T<K>::ReqI impl(r);
  size_t len = spec_request(K, m, o);
  framed(impl, len, o);
}
template <int K> static void resp() {
  static Msg m;
  static uint8_t o[600];
  any_response<K>(m, false);
  typename T<K>::Resp r{};
  toResp(m, r);
  typename T<K>::RespI impl(r);
  size_t len = spec_response(K, m, o);
  framed(impl, len, o);
}
#define X(k, n) HARNESS(m01_request_##n) { req<k>(); } HARNESS(m01_response_##n) { resp<k>(); }
FOR_ALL_KINDS(X)
