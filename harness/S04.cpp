// S04: pipelined requests on a server connection are answered in order.
#include "sworld.h"
using namespace sw;

struct Seen { uint16_t tid; uint8_t unit; unsigned n; uint8_t p[16]; ITcpConnection *from; };
static std::vector<Seen> *seen;
struct Channel final : IServerChannelImpl {
  void start() override {}
  void shutdown() override {}
  void add_session(const UnitIdentifier &, std::shared_ptr<IServerSession>) override {}
  void on_mbap(const MbapMessage &m, ITcpConnection &c) override {
    Seen s{};
    s.tid = m.transaction_id.get_value();
    s.unit = m.unit_id.get_value();
    s.n = (unsigned)m.data.length();
    CHECK(s.n <= sizeof s.p, "a frame is handed over with another content");
    for (unsigned i = 0; i < s.n; i++) s.p[i] = m.data[i];
    s.from = &c;
    seen->push_back(s);
  }
};
struct Stream {
  uint8_t b[80];
  unsigned n = 0, at = 0, frames = 0, delivered = 0;
  unsigned end[4];   // of each frame
  Seen f[4];
  std::shared_ptr<Conn> c;
  void add(unsigned len) {
    Seen &s = f[frames];
    s.tid = sx::any<uint16_t>("transaction");
    s.unit = sx::any<uint8_t>("unit");
    s.n = len;
    symx_make_symbolic(s.p, len ? len : 1, "payload");
    n += frame(b + n, s.tid, s.unit, s.p, len);
    end[frames++] = n;
  }
  // the next bytes arrive: which frames are handed over?
  void read(unsigned len) {
    if (at + len > n) len = n - at;
    size_t before = seen->size();
    uint8_t *copy = new uint8_t[len ? len : 1];
    memcpy(copy, b + at, len);
    c->l->on_receive(ser4cpp::rseq_t(copy, len));
    delete[] copy;
    at += len;
    size_t k = before;
    while (delivered < frames && end[delivered] <= at) {
      CHECK(k < seen->size(), "a complete frame is not handed to the channel");
      Seen &s = (*seen)[k++], &w = f[delivered++];
      CHECK(s.from == c.get(), "a frame is handed over with another connection");
      CHECK(s.n == w.n && s.tid == w.tid && s.unit == w.unit && same(s.p, w.p, w.n), "a frame is handed over with another content");
      COVER("frame");
    }
    CHECK(k == seen->size(), "something else than a complete frame is handed to the channel");
  }
};
struct Two {
  std::vector<Seen> list;
  std::shared_ptr<Channel> ch = std::make_shared<Channel>();
  std::shared_ptr<IServerConnectionListenerBuilder> builder = std::make_shared<ServerConnectionListenerBuilder>(std::weak_ptr<IServerChannelImpl>(ch));
  Stream a, b;
  Two() {
    seen = &list;
    for (Stream *s : {&a, &b}) {
      s->c = std::make_shared<Conn>();
      s->c->set_listener(std::shared_ptr<IConnectionListener>(builder->build(std::weak_ptr<ITcpConnection>(s->c))));
    }
  }
};
HARNESS(s04_streams) {
  static const unsigned LEN[] = {1, 3, 0, 5};
  Two w;
  unsigned fa = (unsigned)symx_param("frames", 2);
  for (unsigned k = 0; k < fa; k++) w.a.add(LEN[sx::pick("length", 2) * (k + 1) % 4]);
  w.b.add(2);
  w.b.add(1);
  unsigned c1 = sx::pick("first cut", w.a.n + 1), c2 = sx::pick("second cut", w.a.n + 1), d = 1 + 3 * sx::pick("cut of the other", 5);
  ASSUME(c1 <= c2);
  bool b_first = sx::any_bool("the other first");
  if (b_first) w.b.read(d);
  w.a.read(c1);
  if (!b_first) w.b.read(d);
  w.a.read(c2 - c1);
  w.b.read(w.b.n - d);
  w.a.read(w.a.n - c2);
  CHECK(w.a.delivered == fa && w.b.delivered == 2, "a complete frame is not handed to the channel");
  EXPECT("frame");
}
// after an error the connection starts again with a fresh frame; the other connection goes on
HARNESS(s04_error) {
  Two w;
  w.a.add(2);
  w.a.add(4);
  w.b.add(3);
  unsigned cut = sx::pick("bytes before the error", w.a.n + 1), d = sx::pick("bytes of the other", w.b.n + 1);
  w.b.read(d);
  w.a.read(cut);
  w.a.c->l->on_error("reset");
  unsigned times = 1 + sx::pick("second error", 2);
  if (times == 2) w.a.c->l->on_error("again");
  w.a = Stream(w.a);
  w.a.n = w.a.at = w.a.frames = w.a.delivered = 0;
  w.a.add(1);
  w.a.add(2);
  w.a.read(sx::pick("cut after the error", w.a.n));
  w.b.read(w.b.n - d);
  w.a.read(w.a.n);
  CHECK(w.a.delivered == 2 && w.b.delivered == 1, "a complete frame is not handed to the channel");
  EXPECT("frame");
}
// a channel or a connection that no longer exists gets nothing
HARNESS(s04_gone) {
  Two w;
  w.a.add(2);
  w.b.add(2);
  auto la = w.a.c->l;
  std::weak_ptr<Channel> wc = w.ch;
  std::weak_ptr<Conn> wa = w.a.c;
  if (sx::any_bool("channel")) { w.ch = nullptr; CHECK(wc.expired(), "a listener keeps the channel alive"); }
  else { w.a.c->l = nullptr; w.a.c = nullptr; CHECK(wa.expired(), "a listener keeps the connection alive"); }
  la->on_receive(ser4cpp::rseq_t(w.a.b, w.a.n));
  CHECK(w.list.empty(), "a frame is handed over although the channel or the connection is gone");
  la->on_error("x");
  la->on_write_done();
  if (w.ch) { w.b.read(w.b.n); CHECK(w.list.size() == 1, "a complete frame is not handed to the channel"); COVER("other"); }
  EXPECT("other");
}
// with the channel: responses in the order of the requests
static unsigned served;
static uint16_t order[8];
HARNESS(s04_responses) {
  unsigned n = (unsigned)symx_param("requests", 3);
  World w;
  auto s = std::make_shared<Session>();
  w.ch->add_session(UnitIdentifier(1), s);
  w.ch->start();
  w.run();
  auto c = w.connect(), o = w.connect();
  uint8_t stream[100];
  uint16_t tid[4];
  unsigned len = 0, kind[4];
  static Msg m;
  m.addr = 1; m.n = 1; m.v[0] = 2;
  s->response = &m;
  for (unsigned k = 0; k < n; k++) {
    tid[k] = sx::any<uint16_t>("transaction");
    kind[k] = sx::pick("request", 3);
    uint8_t good[5] = {6, 0, 1, 0, 2}, bad[5] = {1, 0, 0, 0, 0}, unknown[2] = {0x41, 9};
    const uint8_t *p = kind[k] == 0 ? good : kind[k] == 1 ? bad : unknown;
    len += frame(stream + len, tid[k], 1, p, kind[k] == 2 ? 2 : 5);
  }
  unsigned cut = sx::pick("cut", len + 1);
  c->l->on_receive(ser4cpp::rseq_t(stream, cut));
  uint8_t other[12];
  o->l->on_receive(ser4cpp::rseq_t(other, frame(other, 9, 1, (const uint8_t *)"\6\0\1\0\2", 5)));
  c->l->on_receive(ser4cpp::rseq_t(stream + cut, len - cut));
  w.run();
  CHECK(c->out.size() == n && o->out.size() == 1, "a pipelined request is not answered exactly once");
  for (unsigned k = 0; k < n; k++) {
    uint8_t e0[5] = {6, 0, 1, 0, 2}, e1[2] = {0x81, 3}, e2[2] = {0xC1, 1};
    CHECK(is_frame(c->out[k], tid[k], 1, kind[k] == 0 ? e0 : kind[k] == 1 ? e1 : e2, kind[k] == 0 ? 5 : 2), "responses do not go out in the order of the requests");
    if (kind[k] == 1) COVER("exception in between");
  }
  EXPECT("exception in between");
}
// arbitrary bytes: what is handed over does not depend on how they are split, nor on the other connection
HARNESS(s04_any_bytes) {
  unsigned n = (unsigned)symx_param("n", 16);
  Two w;
  Bytes in(n);
  in.symbolic("byte");
  unsigned cut = sx::pick("cut", n + 1);
  w.a.c->l->on_receive(ser4cpp::rseq_t(in.p, cut));
  std::vector<Seen> first, second;
  first.swap(w.list);
  w.b.c->l->on_receive(in.r());
  second.swap(w.list);
  w.a.c->l->on_receive(ser4cpp::rseq_t(in.p + cut, n - cut));
  for (auto &s : w.list) first.push_back(s);
  CHECK(first.size() == second.size(), "the frames handed over depend on how the bytes were split");
  for (size_t k = 0; k < first.size(); k++) {
    Seen &s = first[k], &t = second[k];
    CHECK(s.from == w.a.c.get() && t.from == w.b.c.get(), "a frame is handed over with another connection");
    CHECK(s.n == t.n && s.tid == t.tid && s.unit == t.unit && same(s.p, t.p, s.n), "the frames handed over depend on how the bytes were split");
    COVER("frame");
  }
  EXPECT("frame");
}
// as many requests in one read as its buffer takes: all of them are answered, in order
HARNESS(s04_many) {
  World w;
  auto s = std::make_shared<Session>();
  w.ch->add_session(UnitIdentifier(1), s);
  w.ch->start();
  w.run();
  auto c = w.connect();
  static Msg m;
  m.addr = 1; m.n = 1; m.v[0] = 2;
  s->response = &m;
  static uint8_t st[8400];
  uint16_t t = sx::any<uint16_t>("transaction");
  unsigned n = 0, len = 0, read = sx::pick("read", 3);
  read = read == 0 ? 8400 : read == 1 ? 4096 : 1000;
  uint8_t good[5] = {6, 0, 1, 0, 2}, unknown[2] = {0x41, 9};
  for (; n < 680; n++) len += frame(st + len, (uint16_t)(t + n), 1, n % 5 == 3 ? unknown : good, n % 5 == 3 ? 2 : 5);
  for (unsigned at = 0; at < len; at += read) c->l->on_receive(ser4cpp::rseq_t(st + at, len - at < read ? len - at : read));
  w.run();
  CHECK(c->out.size() == n, "a pipelined request is not answered exactly once");
  for (unsigned k = 0; k < n; k++) {
    uint8_t e0[5] = {6, 0, 1, 0, 2}, e2[2] = {0xC1, 1};
    CHECK(is_frame(c->out[k], (uint16_t)(t + k), 1, k % 5 == 3 ? e2 : e0, k % 5 == 3 ? 2 : 5), "responses do not go out in the order of the requests");
  }
  COVER("many");
  EXPECT("many");
}
// thousands of requests in reads of their own, on two connections in turn
HARNESS(s04_long) {
  World w;
  auto s = std::make_shared<Session>();
  w.ch->add_session(UnitIdentifier(1), s);
  w.ch->start();
  w.run();
  std::shared_ptr<Conn> c[2] = {w.connect(), w.connect()};
  static Msg m;
  m.addr = 1; m.n = 1; m.v[0] = 2;
  s->response = &m;
  uint16_t t = sx::any<uint16_t>("transaction");
  unsigned n = (unsigned)symx_param("n", 2100), kinds = sx::pick("kinds", 3); // valid ones, also unknown functions, also units without session
  uint8_t good[5] = {6, 0, 1, 0, 2}, unknown[2] = {0x41, 9}, e2[2] = {0xC1, 1};
  for (unsigned i = 0; i < n; i++) {
    Conn &x = *c[i & 1];
    bool odd = kinds >= 1 && i % 5 == 3, none = kinds >= 2 && i % 7 == 2;
    uint8_t b[16];
    unsigned len = frame(b, (uint16_t)(t + i), none ? 9 : 1, odd ? unknown : good, odd ? 2 : 5);
    size_t before = x.out.size(), other = c[1 - (i & 1)]->out.size();
    x.l->on_receive(ser4cpp::rseq_t(b, len));
    w.run();
    CHECK(c[1 - (i & 1)]->out.size() == other, "a response goes to another connection");
    CHECK(x.out.size() == before + (none ? 0 : 1), "a request is not answered exactly once");
    if (!none) CHECK(is_frame(x.out[before], (uint16_t)(t + i), 1, odd ? e2 : good, odd ? 2 : 5), "responses do not go out in the order of the requests");
    if (i % 100 == 99) x.out.clear();
  }
  COVER("many");
  EXPECT("many");
}
