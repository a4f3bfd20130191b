// C06: parsing and encoding never touch memory outside the given buffers, use uninitialised memory, loop for ever or throw.
#include "mbap.h"
#include "ser4cpp/container/StaticBuffer.h"

static uint64_t sum;
inline void use(const ReadCoilsRequest &r) { sum += r.starting_address + r.qty_of_bits; }
inline void use(const ReadDiscreteInputsRequest &r) { sum += r.starting_address + r.qty_of_bits; }
inline void use(const ReadHoldingRegistersRequest &r) { sum += r.starting_address + r.qty_of_registers; }
inline void use(const ReadInputRegistersRequest &r) { sum += r.starting_address + r.qty_of_registers; }
inline void use(const WriteSingleCoilRequest &r) { sum += r.value.address + r.value.value; }
inline void use(const WriteSingleRegisterRequest &r) { sum += r.value.address + r.value.value; }
inline void use(const WriteMultipleCoilsRequest &r) { sum += r.starting_address + r.values.size(); for (size_t i = 0; i < r.values.size(); i++) sum += (unsigned)(bool)r.values[i]; }
inline void use(const WriteMultipleRegistersRequest &r) { sum += r.starting_address + r.values.size(); for (auto &v : r.values) sum += v; }
template <class R> inline void useV(const R &r) { sum += r.values.size(); for (auto &v : r.values) sum += v.address + v.value; }
inline void use(const ReadCoilsResponse &r) { useV(r); }
inline void use(const ReadDiscreteInputsResponse &r) { useV(r); }
inline void use(const ReadHoldingRegistersResponse &r) { useV(r); }
inline void use(const ReadInputRegistersResponse &r) { useV(r); }
inline void use(const WriteSingleCoilResponse &r) { sum += r.value.address + r.value.value; }
inline void use(const WriteSingleRegisterResponse &r) { sum += r.value.address + r.value.value; }
inline void use(const WriteMultipleCoilsResponse &r) { sum += r.starting_address + r.qty_of_coils; }
inline void use(const WriteMultipleRegistersResponse &r) { sum += r.starting_address + r.qty_of_registers; }

template <class E> static void outcome(const E &e) {
  if (e.is_valid()) { use(e.get()); COVER("value"); }
  else { Res r = classify(e); CHECK(r.mod | r.malReq | r.malResp, "an error of an unexpected kind"); COVER("error"); }
}
template <int K> static void parse_req() {
  size_t L = pick_size("len", 0, 260, symx_param("all", 0) != 0);
  Bytes in(L);
  in.symbolic("byte");
  outcome(T<K>::ReqI::parse(in.r()));
  EXPECT("value"); EXPECT("error");
}
// the request is arbitrary here, legal or not
template <int K> static void parse_resp() {
  typename T<K>::Req req{};
  static Msg rq;
  rq.addr = sx::any<uint16_t>("addr");
  rq.qty = sx::any<uint16_t>("qty");
  rq.v[0] = K == WSC ? (uint16_t)sx::any_bool("v") : sx::any<uint16_t>("v");
  rq.n = 1;
  toReq(rq, req);
  typename T<K>::ReqI reqi(req);
  size_t L = pick_size("len", 0, 260, symx_param("all", 0) != 0);
  Bytes in(L);
  in.symbolic("byte");
  outcome(T<K>::RespI::parse(reqi, in.r()));
  EXPECT("value"); EXPECT("error");
}
// messages of any size into output buffers of any size
static void encode(const IMessage &m, size_t room, uint8_t init) {
  Bytes out(room);
  memset(out.p, init, room);
  auto w = out.w();
  m.build_message(w);
  CHECK(w.length() <= room, "wrote beyond the buffer");
  size_t len = m.get_message_length(), used = room - w.length();
  CHECK(used <= len, "wrote more bytes than announced");
  for (size_t i = 0; i < used; i++) sum += out.p[i];
  // a copy does the same
  auto c = m.clone();
  Bytes out2(room);
  memset(out2.p, init, room);
  auto w2 = out2.w();
  c->build_message(w2);
  CHECK(w2.length() == w.length() && same(out.p, out2.p, room), "the copy encodes other bytes");
  COVER("encoded");
}
static size_t pick_count() { // numbers of values, far beyond what is legal
  static const uint32_t N[] = {0, 1, 2, 9, 123, 124, 125, 126, 127, 128, 129, 1968, 1969, 2000, 2001, 2040, 2041, 2048, 2049, 65535, 65536, 70000};
  uint8_t i = sx::any<uint8_t>("count");
  ASSUME(i < (symx_param("huge", 0) ? 22 : 19));
  return N[symx_concretize(i)];
}
static size_t pick_room(size_t len) {
  static const uint16_t R[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 100, 250, 253, 260};
  return R[sx::pick("room", 14)];
}
template <class R> static void grow(R &r, size_t n, uint16_t addr) {}
inline void grow(WriteMultipleCoilsRequest &r, size_t n, uint16_t) { for (size_t i = 0; i < n; i++) r.values.push_back(i % 3 == 0); }
inline void grow(WriteMultipleRegistersRequest &r, size_t n, uint16_t a) { for (size_t i = 0; i < n; i++) r.values.push_back((uint16_t)(a + i)); }
template <class R> inline void growBits(R &r, size_t n, uint16_t a) { for (size_t i = 0; i < n; i++) r.values.push_back(SingleBitValue{(uint16_t)i, (i + a) % 3 == 0}); }
template <class R> inline void growRegs(R &r, size_t n, uint16_t a) { for (size_t i = 0; i < n; i++) r.values.push_back(RegisterValue{(uint16_t)i, (uint16_t)(a + i)}); }
inline void grow(ReadCoilsResponse &r, size_t n, uint16_t) { growBits(r, n, 0); }
inline void grow(ReadDiscreteInputsResponse &r, size_t n, uint16_t) { growBits(r, n, 0); }
inline void grow(ReadHoldingRegistersResponse &r, size_t n, uint16_t a) { growRegs(r, n, a); }
inline void grow(ReadInputRegistersResponse &r, size_t n, uint16_t a) { growRegs(r, n, a); }
template <int K> static void build_req() {
  typename T<K>::Req req{};
  static Msg m;
  m.addr = sx::any<uint16_t>("addr");
  m.qty = sx::any<uint16_t>("qty");
  m.v[0] = K == WSC ? (uint16_t)sx::any_bool("v") : sx::any<uint16_t>("v");
  m.n = K == WSC || K == WSR ? 1 : 0;
  toReq(m, req);
  if (K == WMC || K == WMR) grow(req, pick_count(), m.addr);
  typename T<K>::ReqI impl(req);
  encode(impl, pick_room(0), 0x5a);
  EXPECT("encoded");
}
template <int K> static void build_resp() {
  typename T<K>::Resp resp{};
  static Msg m;
  m.addr = sx::any<uint16_t>("addr");
  m.qty = sx::any<uint16_t>("qty");
  m.v[0] = K == WSC ? (uint16_t)sx::any_bool("v") : sx::any<uint16_t>("v");
  m.n = K == WSC || K == WSR ? 1 : 0;
  toResp(m, resp);
  if (K <= RIR) grow(resp, pick_count(), m.addr);
  typename T<K>::RespI impl(resp);
  encode(impl, pick_room(0), 0x5a);
  EXPECT("encoded");
}
#define X(k, n) \
  HARNESS(c06_parse_request_##n) { parse_req<k>(); } \
  HARNESS(c06_parse_response_##n) { parse_resp<k>(); } \
  HARNESS(c06_build_request_##n) { build_req<k>(); } \
  HARNESS(c06_build_response_##n) { build_resp<k>(); }
FOR_ALL_KINDS(X)
HARNESS(c06_build_exception) {
  uint8_t fc = sx::any<uint8_t>("function");
  ExceptionResponse r(fc, (ExceptionType)sx::range<uint8_t>("type", 0, 0x0c));
  encode(r, pick_room(0), 0x5a);
  EXPECT("encoded");
}
// the frame builder with its 260-byte buffer, for messages of any length
HARNESS(c06_frame_build) {
  static uint8_t data[70000];
  static const uint32_t N[] = {0, 1, 2, 5, 252, 253, 254, 255, 256, 260, 500, 65535, 65536, 70000};
  Fake m(N[sx::pick("len", 14)], data);
  Bytes out(260);
  memset(out.p, 0x5a, 260);
  auto w = out.w();
  uint8_t unit = sx::any<uint8_t>("unit");
  uint16_t tid = sx::any<uint16_t>("tid");
  auto r = MbapMessage::build_message(UnitIdentifier{unit}, TransactionIdentifier{tid}, m, w);
  CHECK(static_cast<const uint8_t *>(r) == out.p && r.length() <= 260, "the frame is not inside the buffer");
  for (size_t i = 0; i < r.length(); i++) sum += out.p[i];
  COVER("encoded");
  EXPECT("encoded");
}
struct Sum : IMbapSink {
  unsigned n = 0;
  void on_mbap_message(const MbapMessage &m) override {
    n++;
    CHECK(m.data.length() <= 253, "more than 253 payload bytes delivered");
    const uint8_t *p = m.data;
    for (size_t i = 0; i < m.data.length(); i++) sum += p[i];
    sum += m.unit_id.get_value() + m.transaction_id.get_value();
    // the bytes delivered must be bytes that were received: decided by branching on them
    unsigned odd = 0;
    for (size_t i = 0; i < m.data.length(); i++) odd |= p[i];
    if (odd) COVER("odd");
  }
};
// arbitrary bytes in two reads
HARNESS(c06_frame_parse) {
  size_t n = (size_t)symx_param("n", 16);
  Sum s;
  MbapParser ps(&s);
  size_t cut = (size_t)symx_concretize(sx::range<uint16_t>("cut", 0, (uint16_t)n));
  Bytes a(cut), b(n - cut);
  a.symbolic("a");
  b.symbolic("b");
  ps.parse(a.r());
  ps.parse(b.r());
  if (sx::any_bool("reset")) { ps.reset(); ps.parse(a.r()); }
  if (s.n) COVER("delivered");
  symx_observe("n", s.n);
  EXPECT("delivered");
}
// one frame of any announced length, all its bytes, in reads of any size
HARNESS(c06_frame_long) {
  static const uint16_t N[] = {1, 2, 253, 254, 255, 256, 257, 300, 600, 65535};
  size_t len = N[sx::pick("len", 10)], total = 6 + len;
  static uint8_t st[6 + 65535];
  symx_make_symbolic(st, 2, "tid");
  symx_make_symbolic(st + 6, 1, "unit");
  symx_make_symbolic(st + 7, len - 1 < 300 ? len - 1 : 300, "payload");
  put16(st + 4, (uint16_t)len);
  Sum s;
  MbapParser ps(&s);
  static const uint16_t C[] = {1, 6, 7, 8, 100, 259, 260, 261, 1000, 65535};
  size_t chunk = C[sx::pick("chunk", 10)];
  if (len == 65535) ASSUME(chunk >= 100);
  for (size_t at = 0; at < total; at += chunk) feed(ps, st + at, total - at < chunk ? total - at : chunk);
  if (s.n) COVER("delivered");
  symx_observe("n", s.n);
  EXPECT("delivered");
}
