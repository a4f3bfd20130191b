// C07: Modbus exceptions survive the wire unchanged.
#include "msgs.h"

static const ExceptionType TYPES[] = {ExceptionType::IllegalFunction, ExceptionType::IllegalDataAddress, ExceptionType::IllegalDataValue,
  ExceptionType::ServerDeviceFailure, ExceptionType::Acknowledge, ExceptionType::ServerDeviceBusy, ExceptionType::MemoryParityError,
  ExceptionType::GatewayPathUnavailable, ExceptionType::GatewayTargetDeviceFailedToRespond};
static const uint8_t CODES[] = {1, 2, 3, 4, 5, 6, 8, 10, 11}; // Modbus application protocol 1.1b3, section 7

HARNESS(c07_encode) {
  unsigned i = sx::pick("type", 9);
  uint8_t fc = sx::any<uint8_t>("function");
  ASSUME(fc < 0x80);
  ExceptionResponse r(fc, TYPES[i]);
  auto copy = r.clone();
  for (const IMessage *m : {(const IMessage *)&r, (const IMessage *)copy.get()}) {
    CHECK(m->is_valid(), "an exception response is not valid");
    CHECK(m->get_message_length() == 2, "an exception response is not two bytes long");
    Bytes out(4);
    memset(out.p, 0x55, 4);
    auto w = out.w();
    m->build_message(w);
    CHECK(w.length() == 2, "an exception response is not two bytes long");
    CHECK(out.p[0] == (fc | 0x80), "wrong function code in an exception response");
    CHECK(out.p[1] == CODES[i], "wrong exception code in an exception response");
  }
  COVER("encoded");
  EXPECT("encoded");
}

template <int K> static Res ask(const uint8_t *p, size_t n) {
  Bytes in(n);
  if (n) memcpy(in.p, p, n);
  static Msg rq;
  rq.addr = 1; rq.qty = 1; rq.n = 1; rq.v[0] = 1;
  typename T<K>::Req req{};
  toReq(rq, req);
  return classify(T<K>::RespI::parse(typename T<K>::ReqI(req), in.r()));
}
template <int K> static void decode() {
  uint8_t code = sx::any<uint8_t>("code");
  uint8_t f[8] = {(uint8_t)(FC[K] | 0x80), code, 0, 0, 0, 0, 0, 0};
  Res r = ask<K>(f, 2);
  CHECK(!r.value & r.mod & !r.malResp & !r.malReq, "an exception response is not reported as a Modbus exception");
  bool std = false;
  for (int i = 0; i < 9; i++) {
    std = std | (code == CODES[i]);
    CHECK((code != CODES[i]) | (r.type == TYPES[i]), "a standard exception code is reported as another exception");
  }
  CHECK(std | (r.type == ExceptionType::Unknown), "a non-standard exception code is not reported as unknown");
  CHECK(parse_exception_type(code) == r.type, "parse_exception_type disagrees");
  // and back again
  unsigned i = sx::pick("type", 9);
  uint8_t g[8];
  { ExceptionResponse x(FC[K], TYPES[i]); auto w = ser4cpp::wseq_t(g, 8); x.build_message(w); }
  Res q = ask<K>(g, 2);
  CHECK(q.mod && q.type == TYPES[i], "an exception type does not survive encoding and decoding");
  // any other length is malformed
  size_t L = sx::pick("len", 8);
  if (L != 2) {
    symx_make_symbolic(f + 1, 7, "rest");
    Res b = ask<K>(f, L);
    CHECK(!b.value & !b.mod & b.malResp, "an exception frame of the wrong length is not reported as malformed");
    COVER("wrong length");
  }
  // another function's exception is not this function's exception
  uint8_t fc = sx::any<uint8_t>("function");
  ASSUME(fc != (FC[K] | 0x80));
  f[0] = fc;
  Res o = ask<K>(f, 2);
  CHECK(!o.mod, "an exception frame of another function is reported as the request's exception");
  symx_observe("type", (uint64_t)r.type);
  EXPECT("wrong length");
}
#define X(k, n) HARNESS(c07_##n) { decode<k>(); }
FOR_ALL_KINDS(X)
