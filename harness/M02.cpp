// M02: frame reassembly does not depend on how TCP splits the stream.
#include "mbap.h"

static size_t cut(const char *name, size_t lo, size_t hi) { return (size_t)symx_concretize(sx::range<uint16_t>(name, (uint16_t)lo, (uint16_t)hi)); }

// legal frames with arbitrary contents, cut anywhere: exactly those frames come out, each as soon as it is complete
HARNESS(m02_frames) {
  static const uint8_t SMALL[] = {0, 1, 2, 5};
  static const uint8_t BIG[] = {253, 252, 0};
  size_t nf = (size_t)symx_param("frames", 2), ncut = (size_t)symx_param("cuts", 2), tail = (size_t)symx_param("tail", 8);
  bool big = symx_param("big", 0) != 0;
  static uint8_t st[1200];
  static Frame want[4];
  size_t end[5], total = 0;
  for (size_t i = 0; i < nf; i++) {
    Frame &f = want[i];
    f.len = big ? BIG[sx::pick("len", 3)] : SMALL[sx::pick("len", 4)];
    f.tid = sx::any<uint16_t>("tid");
    f.unit = sx::any<uint8_t>("unit");
    if (f.len) symx_make_symbolic(f.data, f.len, "payload");
    uint8_t *p = st + total;
    put16(p, f.tid); put16(p + 2, 0); put16(p + 4, (uint16_t)(f.len + 1));
    p[6] = f.unit;
    memcpy(p + 7, f.data, f.len);
    total += 7 + f.len;
    end[i] = total;
  }
  // the beginning of another frame
  size_t part = 0;
  if (tail) {
    part = sx::pick("tail", (unsigned)tail + 1);
    symx_make_symbolic(st + total, 8, "tailbytes");
    put16(st + total + 4, 9);
  }
  size_t complete = total;
  total += part;
  static Log log;
  log.n = 0;
  MbapParser ps(&log);
  size_t at = 0;
  for (size_t c = 0; c <= ncut; c++) {
    size_t to = c == ncut ? total : (big ? at + (const uint16_t[]){0, 1, 3, 6, 7, 8, 250, 259, 260, 261}[sx::pick("chunk", 10)] : cut("cut", at, total));
    if (to > total) to = total;
    feed(ps, st + at, to - at);
    at = to;
    size_t due = 0;
    while (due < nf && end[due] <= at) due++;
    CHECK(log.n >= due, "a complete frame has not been delivered");
    CHECK(log.n <= due, "a frame was delivered before it was complete");
    for (size_t i = 0; i < due; i++) CHECK(same(log.f[i], want[i]), "a delivered frame differs from the one sent");
  }
  if (at == total && log.n == nf) COVER("all delivered");
  (void)complete;
  symx_observe("n", log.n);
  EXPECT("all delivered");
}

// arbitrary bytes: one read or several, the same frames come out
HARNESS(m02_any_bytes) {
  size_t n = (size_t)symx_param("n", 18), ncut = (size_t)symx_param("cuts", 1);
  static uint8_t st[64];
  symx_make_symbolic(st, n, "byte");
  static Log one, many;
  one.n = many.n = 0;
  {
    MbapParser ps(&one);
    feed(ps, st, n);
  }
  {
    MbapParser ps(&many);
    size_t at = 0;
    for (size_t c = 0; c <= ncut; c++) {
      size_t to = c == ncut ? n : cut("cut", at, n);
      feed(ps, st + at, to - at);
      at = to;
    }
  }
  CHECK(one.n == many.n, "the number of frames depends on how the stream is split");
  for (size_t i = 0; i < one.n; i++) CHECK(same(one.f[i], many.f[i]), "a frame depends on how the stream is split");
  if (one.n) COVER("delivered");
  if (one.n > 1) COVER("two delivered");
  symx_observe("n", one.n);
  EXPECT("delivered");
  EXPECT("two delivered");
}

// a frame of any announced length with any protocol identifier, then a legal one: the same frames in one read or in many
HARNESS(m02_any_frame) {
  static const uint16_t N[] = {0, 1, 2, 253, 254, 255, 256, 260, 261, 300, 522, 700};
  static const uint16_t CH[] = {1, 2, 7, 100, 253, 254, 255, 260, 261, 400};
  size_t len = N[sx::pick("len", 12)];
  static uint8_t st[1400];
  symx_make_symbolic(st, 4, "head");
  put16(st + 4, (uint16_t)len);
  symx_make_symbolic(st + 6, len ? len : 1, "body");
  size_t total = 6 + (len ? len : 1);
  symx_make_symbolic(st + total, 12, "second");
  put16(st + total + 2, 0); put16(st + total + 4, 6);
  total += 12;
  static Log one, many;
  one.n = many.n = 0;
  { MbapParser ps(&one); feed(ps, st, total); }
  {
    size_t chunk = CH[sx::pick("chunk", 10)];
    MbapParser ps(&many);
    for (size_t at = 0; at < total; at += chunk) feed(ps, st + at, total - at < chunk ? total - at : chunk);
  }
  CHECK(one.n == many.n, "the number of frames depends on how the stream is split");
  for (size_t i = 0; i < one.n; i++) CHECK(same(one.f[i], many.f[i]), "a frame depends on how the stream is split");
  if (one.n > 1) COVER("two delivered");
  symx_observe("n", one.n);
  EXPECT("two delivered");
}

// as many frames in one read as fit into the receive buffers of the connections, and more
struct Counter : IMbapSink {
  unsigned n = 0;
  const uint8_t *st;
  size_t size = 7;
  bool wrong = false, same = false;
  void on_mbap_message(const MbapMessage &m) override {
    const uint8_t *f = st + (same ? 0 : n * size);
    bool ok = m.transaction_id.get_value() == (uint16_t)(f[0] << 8 | f[1]);
    ok = ok & (m.unit_id.get_value() == f[6]) & (m.data.length() == size - 7);
    for (size_t i = 7; i < size; i++) ok = ok & (m.data[i - 7] == f[i]);
    wrong = wrong | !ok;
    n++;
  }
};
HARNESS(m02_many) {
  static uint8_t st[20000];
  size_t size = 7 + sx::pick("payload", 3) * 5, read = sx::pick("read", 2) ? 4096 : 20000, n = (read > 4096 ? 15000 : 4096 * 2) / size;
  if (size == 17) n = 300;
  for (size_t i = 0; i < n; i++) {
    uint8_t *f = st + i * size;
    symx_make_symbolic(f, size, "frame");
    f[2] = f[3] = f[4] = 0;
    f[5] = (uint8_t)(size - 6);
  }
  static Counter c;
  c.n = 0; c.wrong = false; c.st = st; c.size = size;
  MbapParser ps(&c);
  size_t total = n * size;
  for (size_t at = 0; at < total; at += read) {
    feed(ps, st + at, total - at < read ? total - at : read);
    CHECK(c.n == (total - at < read ? total : at + read) / size, "a complete frame of many has not been delivered");
  }
  CHECK(!c.wrong, "a delivered frame of many differs from the one sent");
  COVER("many");
  EXPECT("many");
}
// more frames than a counter of sixteen bits, in reads of their own or cut in two
HARNESS(m02_long) {
  static uint8_t st[17];
  size_t size = sx::pick("payload", 2) ? 12 : 7, cut = sx::pick("cut", 3) * 4;
  unsigned n = (unsigned)symx_param("n", 66000);
  symx_make_symbolic(st, size, "frame");
  st[2] = st[3] = st[4] = 0;
  st[5] = (uint8_t)(size - 6);
  static Counter c;
  c.n = 0; c.wrong = false; c.st = st; c.size = size; c.same = true;
  MbapParser ps(&c);
  for (unsigned i = 0; i < n; i++) {
    if (cut && cut < size) feed(ps, st, cut);
    feed(ps, st + (cut < size ? cut : 0), size - (cut < size ? cut : 0));
    CHECK(c.n == i + 1, "a complete frame of many has not been delivered");
  }
  CHECK(!c.wrong, "a delivered frame of many differs from the one sent");
  COVER("many");
  EXPECT("many");
}
