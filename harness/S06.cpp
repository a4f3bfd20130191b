// S06: client and server agree end to end over any TCP segmentation. The real client session and channel, two byte
// streams cut anywhere, the real server listener and channel, the real in-memory database.
#include "sworld.h"
#include "client/channel/ClientChannelTcp.h"
#include "modbus/client/IClientSession.h"
#include "modbus/server/db/InMemoryDatabase.h"
using namespace sw;

static const size_t MAXN = 2010;
struct Table { Address base; size_t n; uint16_t v[MAXN]; };
static Table t[4]; // coils, discrete inputs, holding registers, input registers

// a stream in one direction: what was written, how much of it has arrived
struct Pipe { std::vector<uint8_t> b; size_t at = 0; };
struct Link;
static Link *link_;
struct End final : ITcpConnection {
  bool client;
  explicit End(bool c) : client(c) {}
  std::weak_ptr<IConnectionListener> l;
  std::shared_ptr<IConnectionListener> strong;
  void set_listener(std::shared_ptr<IConnectionListener> x) override { l = x; if (!client) strong = x; }
  void send(const ser4cpp::rseq_t &d) override;
  void close() override {}
  void shutdown() override {}
};
struct Link {
  World w;
  Pipe up, down;
  std::shared_ptr<InMemoryDatabase> db = std::make_shared<InMemoryDatabase>();
  std::shared_ptr<End> ce = std::make_shared<End>(true), se = std::make_shared<End>(false);
  std::shared_ptr<ClientChannelTcp> cc;
  std::shared_ptr<IClientSession> s;
  unsigned cuts; // how many in all
  Link() {
    link_ = this;
    w.ch->add_session(UnitIdentifier(3), db);
    w.ch->start();
    w.run();
    se->set_listener(std::shared_ptr<IConnectionListener>(w.server->builder->build(std::weak_ptr<ITcpConnection>(se))));
    cc = std::make_shared<ClientChannelTcp>(w.ex, std::make_shared<Logger>(std::make_shared<spdlog::logger>("c")), ce);
    s = cc->create_session(UnitIdentifier(3), exe4cpp::duration_t(1000));
    cuts = (unsigned)symx_param("cuts", 2);
  }
  void arrive(Pipe &p, std::shared_ptr<IConnectionListener> l, size_t n) {
    uint8_t *copy = new uint8_t[n ? n : 1];
    for (size_t i = 0; i < n; i++) copy[i] = p.b[p.at + i];
    p.at += n;
    if (l) l->on_receive(ser4cpp::rseq_t(copy, n));
    delete[] copy;
    w.run();
  }
  // everything in the stream arrives, in pieces
  void flow(Pipe &p, bool up_) {
    while (cuts && p.at < p.b.size() && sx::any_bool("cut here")) {
      cuts--;
      size_t left = p.b.size() - p.at;
      // near the ends every position, in between a few
      static const unsigned FROM[] = {0, 1, 2, 5, 6, 7, 8, 9, 11, 12, 13};
      unsigned c = sx::pick("cut", 14);
      size_t n = c < 11 ? FROM[c] : left - (c - 10);
      ASSUME(n < left);
      arrive(p, up_ ? se->strong : ce->l.lock(), n);
    }
    arrive(p, up_ ? se->strong : ce->l.lock(), p.b.size() - p.at);
  }
  void exchange() {
    w.run();
    for (unsigned k = 0; k < 8 && (up.at < up.b.size() || down.at < down.b.size()); k++) {
      if (up.at < up.b.size()) flow(up, true);
      if (down.at < down.b.size()) flow(down, false);
    }
  }
};
void End::send(const ser4cpp::rseq_t &d) {
  Pipe &p = client ? link_->up : link_->down;
  for (size_t i = 0; i < d.length(); i++) p.b.push_back(d[i]);
}
static bool bits(int k) { return k < 2; }
static void fill(Link &x, size_t n) {
  for (int k = 0; k < 4; k++) {
    t[k].n = n;
    for (size_t i = 0; i < n; i++) {
      Address a = (Address)(t[k].base + i);
      t[k].v[i] = bits(k) ? (uint16_t)sx::any_bool("bit") : sx::any<uint16_t>("reg");
      switch (k) {
      case 0: x.db->add_coil(a, t[k].v[i] != 0); break;
      case 1: x.db->add_discrete_input(a, t[k].v[i] != 0); break;
      case 2: x.db->add_holding_register(a, t[k].v[i]); break;
      case 3: x.db->add_input_register(a, t[k].v[i]); break;
      }
    }
  }
}
static void contents(Link &x) {
  x.db->execute_transaction([](IDatabase &d) {
    for (int k = 0; k < 4; k++)
      for (size_t i = 0; i < t[k].n; i++) {
        Address a = (Address)(t[k].base + i);
        bool b = false, ok = false;
        uint16_t r = 0;
        switch (k) {
        case 0: ok = d.get_coil(a, b); r = b; break;
        case 1: ok = d.get_discrete_input(a, b); r = b; break;
        case 2: ok = d.get_holding_register(a, r); break;
        case 3: ok = d.get_input_register(a, r); break;
        }
        CHECK(ok && r == t[k].v[i], "the database does not hold what was written to it");
      }
  });
}
static unsigned calls;
static Msg want, rq;
static bool absent;
template <class R> static void check(const Expected<R> &e) {
  calls++;
  if (absent) {
    CHECK(!e.is_valid() && e.template has_exception<ModbusException>() && e.template get_exception<ModbusException>().get_exception_type() == ExceptionType::IllegalDataAddress, "a request for absent addresses is not reported as 'illegal data address'");
    COVER("absent");
    return;
  }
  CHECK(e.is_valid(), "a request for present addresses fails");
  CHECK(eqResp(want, e.get()), "the client does not get what the database holds");
  COVER("answered");
}
template <int K> static void table(Table *&x) { x = &t[K == RC || K == WSC || K == WMC ? 0 : K == RDI ? 1 : K == RHR || K == WSR || K == WMR ? 2 : 3]; }
template <int K> static void request(Link &x, uint16_t addr, size_t count) {
  Table *b;
  table<K>(b);
  rq.addr = want.addr = addr;
  rq.qty = want.qty = (uint16_t)count;
  uint16_t off = (uint16_t)(addr - b->base);
  absent = !(off < b->n && off + count <= b->n);
  if (K >= WSC) {
    fill_values(rq, count, isBits(K), "written");
    want.n = count;
    for (size_t i = 0; i < count; i++) want.v[i] = rq.v[i];
    if (!absent) for (size_t i = 0; i < count; i++) b->v[off + i] = rq.v[i];
  } else {
    want.n = count;
    if (!absent) for (size_t i = 0; i < count; i++) want.v[i] = b->v[off + i];
  }
  typename T<K>::Req r{};
  toReq(rq, r);
  calls = 0;
  x.s->send_request(r, [](const Expected<typename T<K>::Resp> &e) { check(e); });
  x.exchange();
  CHECK(calls == 1, "a request does not end with exactly one outcome");
}
template <int K> static void small() {
  static const uint16_t BASE[] = {0, 300, 65534};
  Link x;
  size_t n = 2;
  for (int k = 0; k < 4; k++) t[k].base = (uint16_t)(BASE[sx::pick("place", 2) * 2] + (k % 2)); // at the bottom and at the top
  for (int k = 1; k < 4; k++) ASSUME(t[k].base / 1000 == t[0].base / 1000);
  symx_merge(0);
  fill(x, n);
  Table *b;
  table<K>(b);
  size_t count = K == WSC || K == WSR ? 1 : 1 + sx::pick("quantity", 3);
  uint16_t addr = (uint16_t)(b->base - 1 + sx::pick("start", 4));
  ASSUME((unsigned)addr + count <= 65536);
  request<K>(x, addr, count);
  contents(x);
  EXPECT("answered");
  EXPECT("absent");
}
#define X(k, n) HARNESS(s06_##n) { small<k>(); }
FOR_ALL_KINDS(X)

// write, then read back; the two requests may be pending together
HARNESS(s06_write_read) {
  Link x;
  for (int k = 0; k < 4; k++) t[k].base = 7;
  fill(x, 2);
  request<WMR>(x, 7, 2);
  contents(x);
  request<RHR>(x, 7, 2);
  request<WSC>(x, 8, 1);
  contents(x);
  request<RC>(x, 7, 2);
  EXPECT("answered");
}
static unsigned done_w, done_r;
HARNESS(s06_pipelined) {
  Link x;
  for (int k = 0; k < 4; k++) t[k].base = 7;
  fill(x, 2);
  uint16_t v = sx::any<uint16_t>("written");
  done_w = done_r = 0;
  absent = false;
  static uint16_t expect;
  expect = v;
  x.s->send_request(WriteSingleRegisterRequest{RegisterValue{8, v}}, [](const Expected<WriteSingleRegisterResponse> &e) { done_w++; CHECK(e.is_valid() && e.get().value.value == expect, "a request for present addresses fails"); });
  x.s->send_request(ReadHoldingRegistersRequest{8, 1}, [](const Expected<ReadHoldingRegistersResponse> &e) { done_r++; CHECK(e.is_valid() && e.get().values.size() == 1 && e.get().values[0].value == expect, "the client does not get what the database holds"); });
  x.s->send_request(ReadHoldingRegistersRequest{9, 1}, [](const Expected<ReadHoldingRegistersResponse> &e) { absent = true; check(e); });
  calls = 0;
  x.exchange();
  CHECK(done_w == 1 && done_r == 1 && calls == 1, "a request does not end with exactly one outcome");
  t[2].v[1] = v;
  contents(x);
}
// the largest legal requests
template <int K> static void large() {
  Link x;
  for (int k = 0; k < 4; k++) t[k].base = 100;
  Table *b;
  table<K>(b);
  size_t n = MAXQ[K];
  b->n = n;
  for (size_t i = 0; i < n; i++) {
    Address a = (Address)(100 + i);
    b->v[i] = isBits(K) ? (uint16_t)sx::any_bool("bit") : sx::any<uint16_t>("reg");
    if (b == &t[0]) x.db->add_coil(a, b->v[i] != 0);
    if (b == &t[1]) x.db->add_discrete_input(a, b->v[i] != 0);
    if (b == &t[2]) x.db->add_holding_register(a, b->v[i]);
    if (b == &t[3]) x.db->add_input_register(a, b->v[i]);
  }
  for (int k = 0; k < 4; k++) if (&t[k] != b) t[k].n = 0;
  request<K>(x, 100, n - sx::pick("less", 2));
  contents(x);
  EXPECT("answered");
}
HARNESS(s06_large_read_coils) { large<RC>(); }
HARNESS(s06_large_read_holding_registers) { large<RHR>(); }
HARNESS(s06_large_write_multiple_coils) { large<WMC>(); }
HARNESS(s06_large_write_multiple_registers) { large<WMR>(); }
