// M03: illegal frames are skipped and never corrupt the frames that follow.
#include "mbap.h"

static size_t legal(uint8_t *p, Frame &f, size_t len) {
  f.len = len;
  f.tid = sx::any<uint16_t>("tid");
  f.unit = sx::any<uint8_t>("unit");
  if (len) symx_make_symbolic(f.data, len, "payload");
  put16(p, f.tid); put16(p + 2, 0); put16(p + 4, (uint16_t)(len + 1));
  p[6] = f.unit;
  memcpy(p + 7, f.data, len);
  return 7 + len;
}
// returns the size; mayDeliver: an over-long frame may be delivered once (cut to 253 bytes) or skipped
static size_t illegal(uint8_t *p, bool &mayDeliver, Frame &f) {
  unsigned kind = sx::pick("kind", 4);
  static const uint16_t OK[] = {1, 2, 4, 254};
  static const uint16_t LONG[] = {255, 256, 257, 260, 261, 300, 1000, 65535};
  symx_make_symbolic(p, 2, "itid");
  mayDeliver = false;
  if (kind == 0) { // zero length (with its unit identifier), any protocol identifier
    symx_make_symbolic(p + 2, 2, "iproto");
    put16(p + 4, 0);
    symx_make_symbolic(p + 6, 1, "iunit");
    return 7;
  }
  size_t len = kind == 1 ? OK[sx::pick("ilen", 4)] : LONG[sx::pick("ilong", 8)];
  if (kind == 3) { put16(p + 2, 0); mayDeliver = true; }
  else { uint16_t pr = sx::any<uint16_t>("iproto"); ASSUME(pr != 0); put16(p + 2, pr); }
  put16(p + 4, (uint16_t)len);
  symx_make_symbolic(p + 6, len < 300 ? len : 300, "ibody");
  f.tid = be16(p); f.unit = p[6]; f.len = 253;
  memcpy(f.data, p + 7, 253);
  return 6 + len;
}
static uint8_t st[200000];
static Log lg;
HARNESS(m03_skip) {
  static Frame a, b, c, bad, bad2;
  size_t n = 0;
  bool deliver, deliver2 = false;
  bool two = symx_param("two", 0) != 0;
  static const uint8_t S[] = {0, 3, 253};
  n += legal(st + n, a, S[sx::pick("alen", 3)]);
  n += illegal(st + n, deliver, bad);
  if (two) n += illegal(st + n, deliver2, bad2);
  n += legal(st + n, b, S[sx::pick("blen", 2)]);
  n += legal(st + n, c, 1);
  lg.n = 0;
  MbapParser ps(&lg);
  static const uint32_t CH[] = {200000, 1, 7, 260, 261};
  size_t chunk = CH[sx::pick("chunk", 5)];
  if (n > 60000) ASSUME(chunk >= 260);
  for (size_t at = 0; at < n; at += chunk) feed(ps, st + at, n - at < chunk ? n - at : chunk);
  size_t i = 0;
  CHECK(lg.n >= 3, "a legal frame next to an illegal one was lost");
  CHECK(same(lg.f[i], a), "the legal frame before an illegal one was altered");
  i++;
  size_t extra = lg.n - 3;
  CHECK(extra <= (size_t)deliver + deliver2, "a frame with a wrong protocol identifier or no length was delivered");
  if (extra) {
    COVER("over-long frame delivered");
    const Frame &f = deliver ? bad : bad2;
    CHECK(same(lg.f[i], f), "an over-long frame was delivered with bytes it does not contain");
  }
  i += extra;
  CHECK(same(lg.f[i], b) && same(lg.f[i + 1], c), "a legal frame after an illegal one was altered");
  COVER("kept");
  symx_observe("n", lg.n);
  EXPECT("kept");
}
// after a reset the parser is as good as new
HARNESS(m03_reset) {
  static uint8_t g[40];
  size_t gm = (size_t)symx_param("garbage", 8), sn = (size_t)symx_param("n", 14);
  size_t n = (size_t)symx_concretize(sx::range<uint8_t>("garbage", 0, (uint8_t)gm));
  symx_make_symbolic(g, gm, "g");
  static Log old, fresh, now;
  old.n = fresh.n = now.n = 0;
  struct Sw : IMbapSink { Log *l; void on_mbap_message(const MbapMessage &m) override { l->on_mbap_message(m); } } sw;
  sw.l = &old;
  MbapParser ps(&sw);
  feed(ps, g, n);
  ps.reset();
  sw.l = &now;
  uint8_t s2[20];
  symx_make_symbolic(s2, sn, "s");
  feed(ps, s2, sn);
  MbapParser other(&fresh);
  feed(other, s2, sn);
  CHECK(now.n == fresh.n, "a reset parser delivers other frames than a fresh one");
  for (size_t i = 0; i < now.n; i++) CHECK(same(now.f[i], fresh.f[i]), "a reset parser delivers other frames than a fresh one");
  if (now.n) COVER("delivered");
  symx_observe("n", now.n);
  EXPECT("delivered");
}

// many illegal frames before a legal one
HARNESS(m03_many) {
  unsigned n = (unsigned)symx_param("n", 300), kind = sx::pick("kind", 4), body = kind == 0 ? 1 : kind == 1 ? 1 : kind == 2 ? 5 : 299;
  static Frame a, bad;
  size_t at = 0;
  for (unsigned i = 0; i < n; i++) {
    uint8_t *p = st + at;
    symx_make_symbolic(p, 2, "itid");
    put16(p + 2, kind == 0 ? 0 : 1);
    put16(p + 4, (uint16_t)(kind == 0 ? 0 : body));
    if (kind != 3) symx_make_symbolic(p + 6, body, "ibody");
    at += 6 + body;
  }
  size_t len = legal(st + at, a, 3);
  lg.n = 0;
  MbapParser ps(&lg);
  if (sx::any_bool("one read")) feed(ps, st, at + len);
  else { for (size_t k = 0; k < at + len; k += 4096) feed(ps, st + k, at + len - k < 4096 ? at + len - k : 4096); }
  CHECK(lg.n == 1 && same(lg.f[0], a), "many illegal frames corrupt the legal one that follows");
  (void)bad;
  COVER("many");
  EXPECT("many");
}
