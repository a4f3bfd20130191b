// C02: responses survive an encode/decode round trip in the context of the request they answer.
#include "msgs.h"

template <int K> static void round_trip() {
  static Msg m, rq;
  any_response<K>(m, symx_param("all", 0) != 0);
  typename T<K>::Resp resp{};
  toResp(m, resp);
  // the request it answers (for writes the response does not depend on it)
  if (K <= RIR) { rq.addr = m.addr; rq.qty = m.qty; rq.n = 0; }
  else { rq = Msg(); rq.addr = m.addr; rq.qty = m.qty; rq.n = 1; rq.v[0] = m.v[0]; }
  typename T<K>::Req req{};
  toReq(rq, req);
  typename T<K>::ReqI reqi(req);
  const size_t room = 260;
  Bytes out(room), out2(room);
  size_t len;
  std::unique_ptr<IMessage> copy;
  {
    typename T<K>::RespI impl(resp);
    CHECK(impl.is_valid(), "a legal response is not valid");
    len = impl.get_message_length();
    CHECK(len >= 2 && len <= 253, "announced length out of range");
    auto w = out.w();
    impl.build_message(w);
    CHECK(room - w.length() == len, "number of bytes written differs from the announced length");
    copy = impl.clone();
  }
  CHECK(copy->get_message_length() == len && copy->is_valid(), "the copy announces another length");
  memset(out2.p, 0x5a, room);
  auto w = out2.w();
  copy->build_message(w);
  CHECK(room - w.length() == len && same(out.p, out2.p, len), "the copy encodes other bytes");
  Bytes in(len);
  memcpy(in.p, out.p, len);
  auto r = T<K>::RespI::parse(reqi, in.r());
  CHECK(r.is_valid(), "the client rejects a valid response");
  CHECK(eqResp(m, r.get()), "the parsed response differs from the one sent");
  symx_observe("len", len);
  symx_observe("qty", m.qty);
  COVER("parsed");
  EXPECT("parsed");
}
#define X(k, n) HARNESS(c02_##n) { round_trip<k>(); }
FOR_ALL_KINDS(X)
