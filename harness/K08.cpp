// K08: typed client requests report what the device answered.
#include "msgs.h"
#include "kworld.h"
KWORLD;
using kw::World;
using kw::W;

struct Seen { unsigned calls; Res r; bool timeout, connection; } seen;
static Msg rq, want;
static bool same_values;
static const char *text;

static const uint64_t LONGEST = 10000000000000; // 10000 s

template <int K> static void one() {
  World w;
  w.limit = 0;
  seen = Seen{};
  uint8_t unit = sx::any<uint8_t>("unit");
  uint64_t deflt = sx::range<uint64_t>("default timeout", 1, LONGEST), own = sx::range<uint64_t>("timeout", 0, LONGEST);
  auto s = w.ch->create_session(UnitIdentifier(unit), dur(deflt));
  typename T<K>::Req req{};
  bool all = symx_param("all", 0) != 0;
  rq.addr = sx::any<uint16_t>("addr");
  if (K == WMC || K == WMR) {
    size_t n = all ? pick_size("n", 1, MAXQ[K], false) : (const size_t[]){1, 9, MAXQ[K]}[sx::pick("n", 3)];
    fill_values(rq, n, K == WMC, "value");
    rq.qty = (uint16_t)n;
  } else if (K == WSC || K == WSR) {
    fill_values(rq, 1, K == WSC, "value");
    rq.qty = 0;
  } else rq.qty = sx::range<uint16_t>("quantity", 1, MAXQ[K]);
  toReq(rq, req);
  // the values a well-formed answer may carry are compared inside the handler
  auto handler = [](const Expected<typename T<K>::Resp> &e) {
    seen.calls++;
    seen.r = classify(e);
    seen.timeout = !e.is_valid() && e.template has_exception<TimeoutException>();
    seen.connection = !e.is_valid() && e.template has_exception<ConnectionException>();
    if (seen.connection) {
      const IException &x = e.template get_exception<ConnectionException>();
      CHECK(x.get_message() == text, "a connection error loses its message");
    }
    if (seen.r.value) {
      CHECK(want.n != 9999, "values are reported although there is no answer");
      CHECK(eqResp(want, e.get()), "the reported values are not those in the answer");
    }
  };
  want.n = 9999;
  bool given = sx::any_bool("explicit timeout");
  if (given) s->send_request(req, dur(own), handler); else s->send_request(req, handler);
  w.ex->run_many(8);
  // the transmission
  static uint8_t o[300];
  size_t n = spec_request(K, rq, o);
  CHECK(w.nsent == 1 && w.wirelen == n + 7, "a request is not transmitted as it should");
  CHECK(same(w.wire + 7, o, n), "the transmitted bytes are not the encoding of the request");
  CHECK(w.wire[6] == unit, "a request is transmitted for another unit");
  uint16_t tid = be16(w.wire);
  if (given && own == 0) { // no time to answer at all
    COVER("at once");
    CHECK(seen.calls == 1 && seen.timeout, "a request without any time does not time out at once");
    return;
  }
  unsigned how = sx::pick("what happens", 3);
  if (how == 0) {
    COVER("timeout");
    uint64_t t = given ? own : deflt;
    w.ex->advance_time(dur(t) - dur(1));
    w.ex->run_many(8);
    CHECK(seen.calls == 0, "a request times out too early");
    w.ex->advance_time(dur(1));
    w.ex->run_many(8);
    CHECK(seen.calls == 1 && seen.timeout, "a request does not time out when its time has elapsed");
  } else if (how == 1) {
    COVER("error");
    char m[3] = {(char)sx::range<uint8_t>("message", 32, 126), '!', 0};
    text = m;
    w.error(m);
    CHECK(seen.calls == 1 && seen.connection, "a connection error is not reported as such");
  } else {
    static const unsigned lens[] = {0, 1, 2, 3, 4, 5, 6, 7, 252, 253};
    unsigned L = all ? (unsigned)pick_size("len", 0, 253, true) : lens[sx::pick("len", sizeof lens / sizeof *lens)];
    static uint8_t p[260];
    if (L) symx_make_symbolic(p, L, "answer");
    if (L == 0) p[0] = 0;
    bool exc = L == 2 && p[0] == (FC[K] | 0x80);
    bool ok, echo = true;
    if (K <= RIR) {
      unsigned bytes = isBits(K) ? (rq.qty + 7u) / 8 : rq.qty * 2u;
      ok = L >= 2 && ((p[0] == FC[K]) & (p[1] == L - 2) & (p[1] == bytes));
    } else {
      ok = L == 5 && p[0] == FC[K];
      if (L == 5) {
        unsigned x = be16(p + 3);
        if (K == WSC) ok = ok & ((x == 0) | (x == 0xFF00));
        echo = (be16(p + 1) == rq.addr) & (K == WSC ? x == (rq.v[0] ? 0xFF00u : 0u) : K == WSR ? x == rq.v[0] : x == rq.qty);
      }
    }
    if (ok) {
      if (K <= RIR) {
        want.addr = rq.addr;
        want.n = (size_t)symx_concretize(rq.qty);
        for (size_t i = 0; i < want.n; i++) want.v[i] = isBits(K) ? (uint16_t)((p[2 + i / 8] >> (i % 8)) & 1) : be16(p + 2 + 2 * i);
      } else {
        want.addr = be16(p + 1);
        want.qty = want.v[0] = be16(p + 3);
        want.n = 1;
      }
    }
    w.receive(tid, unit, p, L);
    CHECK(seen.calls == 1, "the handler of an answered request is not called exactly once");
    CHECK(!seen.timeout && !seen.connection, "an answered request is reported as not answered");
    if (exc) { COVER("exception"); CHECK(seen.r.mod, "the Modbus exception of the device is not reported"); }
    else if (ok & echo) { COVER("values"); CHECK(seen.r.value, "the values of the device are not reported"); }
    else if (!ok) { COVER("malformed"); CHECK(seen.r.malResp, "a malformed response is not reported as such"); }
    if (seen.r.mod) {
      CHECK(exc, "a Modbus exception is reported that the device did not answer with");
      static const uint8_t known[] = {1, 2, 3, 4, 5, 6, 8, 10, 11};
      bool is = false;
      for (uint8_t k : known) is = is | (p[1] == k);
      CHECK(is ? (uint8_t)seen.r.type == p[1] : seen.r.type == ExceptionType::Unknown, "another Modbus exception is reported than the device answered with");
    }
  }
  w.ex->advance_time(dur(2 * LONGEST));
  w.ex->run_many(8);
  CHECK(seen.calls == 1, "the handler of a request is called twice");
  EXPECT("timeout"); EXPECT("at once"); EXPECT("error"); EXPECT("exception"); EXPECT("values"); EXPECT("malformed");
}
#define X(k, n) HARNESS(k08_##n) { one<k>(); }
FOR_ALL_KINDS(X)
