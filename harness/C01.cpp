// C01: requests survive an encode/decode round trip.
#include "msgs.h"

template <int K> static void round_trip() {
  static Msg m;
  any_request<K>(m, symx_param("all", 0) != 0);
  typename T<K>::Req req{};
  toReq(m, req);
  const size_t room = 260;
  Bytes out(room), out2(room);
  size_t len;
  std::unique_ptr<IMessage> copy, copy2;
  {
    typename T<K>::ReqI impl(req);
    CHECK(impl.is_valid(), "a legal request is not valid");
    CHECK(eqReq(m, impl.get_request()), "the message does not hold the request it was made from");
    len = impl.get_message_length();
    CHECK(len >= 5 && len <= 253, "announced length out of range");
    copy = impl.clone();
    auto w = out.w();
    impl.build_message(w);
    CHECK(room - w.length() == len, "number of bytes written differs from the announced length");
    copy2 = impl.clone(); // after encoding
    auto w2 = out2.w();
    impl.build_message(w2); // encoding again
    CHECK(room - w2.length() == len && same(out.p, out2.p, len), "encoding twice gives different bytes");
  }
  // the copies outlive the original
  for (IMessage *c : {copy.get(), copy2.get()}) {
    CHECK(c->is_valid(), "the copy of a valid request is not valid");
    CHECK(c->get_message_length() == len, "the copy announces another length");
    memset(out2.p, 0x5a, room);
    auto w = out2.w();
    c->build_message(w);
    CHECK(room - w.length() == len && same(out.p, out2.p, len), "the copy encodes other bytes");
  }
  {
    auto cc = copy->clone();
    copy.reset();
    memset(out2.p, 0xa5, room);
    auto w = out2.w();
    cc->build_message(w);
    CHECK(room - w.length() == len && same(out.p, out2.p, len), "the copy of a copy encodes other bytes");
  }
  // the received bytes: exactly len of them
  Bytes in(len);
  memcpy(in.p, out.p, len);
  auto r = T<K>::ReqI::parse(in.r());
  CHECK(r.is_valid(), "the server rejects a valid request");
  CHECK(eqReq(m, r.get()), "the parsed request differs from the one sent");
  symx_observe("len", len);
  symx_observe("qty", m.qty);
  COVER("parsed");
  EXPECT("parsed");
}
#define X(k, n) HARNESS(c01_##n) { round_trip<k>(); }
FOR_ALL_KINDS(X)
