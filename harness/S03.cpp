// S03: the most recently added session of a unit serves it until shutdown.
#include "sworld.h"
using namespace sw;

static const unsigned MAXS = 4;
struct Model {
  int latest[256];
  bool down;
} static model;

static void request(World &w, std::shared_ptr<Conn> c, std::shared_ptr<Session> *s, uint8_t unit) {
  uint8_t p[5] = {6, 0, 1, 0, 2}, f[20];
  unsigned before = (unsigned)c->out.size(), asked[MAXS];
  for (unsigned i = 0; i < MAXS; i++) asked[i] = s[i]->asked;
  uint16_t tid = sx::any<uint16_t>("transaction");
  unsigned len = frame(f, tid, unit, p, 5);
  c->l->on_receive(ser4cpp::rseq_t(f, len));
  int owner = model.down ? -1 : model.latest[unit];
  for (int i = 0; i < (int)MAXS; i++) CHECK(s[i]->asked == asked[i] + (i == owner ? 1 : 0), model.down ? "a request is served after the shutdown" : "a request is not served by the session attached last");
  CHECK(c->out.size() == before + (owner >= 0 ? 1 : 0), owner >= 0 ? "a request for an attached unit is not answered" : "a request is answered although no session serves its unit");
  if (owner >= 0) COVER("served");
}
HARNESS(s03_history) {
  unsigned steps = (unsigned)symx_param("steps", 4), units = (unsigned)symx_param("units", 2);
  World w;
  std::shared_ptr<Session> s[MAXS];
  static Msg m;
  m.addr = 1; m.n = 1; m.v[0] = 2;
  for (auto &x : s) { x = std::make_shared<Session>(); x->response = &m; }
  for (int &i : model.latest) i = -1;
  model.down = false;
  uint8_t base = (uint8_t)(sx::pick("first unit", 2) * 254); // 0 or 254
  w.ch->start();
  w.run();
  auto c = w.connect();
  bool asked = false;
  for (unsigned k = 0, last = 9, e; k < steps; k++, last = e) {
    switch (e = sx::pick("event", 4)) {
    case 0: {
      uint8_t u = (uint8_t)(base + sx::pick("unit", units));
      int i = (int)sx::pick("session", (unsigned)symx_param("sessions", 2));
      w.ch->add_session(UnitIdentifier(u), s[i]);
      w.ex->post([u, i] { if (!model.down) model.latest[u] = i; });
      if (symx_param("lazy", 0) == 0) w.run();
      COVER("attached");
      break;
    }
    case 1: ASSUME(last != 1); request(w, c, s, (uint8_t)(base + sx::pick("unit", units))); break;
    case 2: {
      ASSUME(w.ex->num_active() >= 2);
      w.ex->run_one();
      w.ex->run_one();
      break;
    }
    case 3: ASSUME(!asked || symx_param("twice", 0)); asked = true; w.ch->shutdown(); w.ex->post([] { model.down = true; }); if (symx_param("lazy", 0) == 0) w.run(); break;
    }
  }
  w.run();
  for (unsigned u = 0; u < units; u++) request(w, c, s, (uint8_t)(base + u));
  bool attached[MAXS] = {};
  w.ch->shutdown();
  w.run();
  model.down = true;
  for (int l : model.latest) if (l >= 0) attached[l] = true;
  for (unsigned i = 0; i < MAXS; i++) {
    if (attached[i]) CHECK(s[i]->shutdowns == 1, "an attached session is not shut down exactly once");
    else CHECK(s[i]->shutdowns <= 1, "a session is shut down twice");
    if (s[i]->shutdowns) COVER("shut down");
  }
  for (unsigned u = 0; u < units; u++) {
    w.ch->add_session(UnitIdentifier((uint8_t)(base + u)), s[3]);
    w.run();
    request(w, c, s, (uint8_t)(base + u));
  }
  // the same directly, without a listener
  uint8_t p[5] = {6, 0, 1, 0, 2};
  unsigned before = (unsigned)c->out.size();
  w.ch->on_mbap(MbapMessage{UnitIdentifier(base), TransactionIdentifier(1), ser4cpp::rseq_t(p, 5)}, *c);
  CHECK(c->out.size() == before, "a request is answered after the shutdown");
  EXPECT("attached"); EXPECT("served"); EXPECT("shut down");
}
// any two units
HARNESS(s03_any_units) {
  World w;
  auto a = std::make_shared<Session>(), b = std::make_shared<Session>();
  static Msg m;
  m.addr = 1; m.n = 1; m.v[0] = 2;
  a->response = b->response = &m;
  uint8_t u = sx::any<uint8_t>("unit"), v = sx::any<uint8_t>("other unit"), r = sx::any<uint8_t>("requested unit");
  w.ch->add_session(UnitIdentifier(u), a);
  w.ch->add_session(UnitIdentifier(v), b);
  w.ch->start();
  w.run();
  auto c = w.connect();
  uint8_t p[5] = {6, 0, 1, 0, 2}, f[20];
  unsigned len = frame(f, 7, r, p, 5);
  c->l->on_receive(ser4cpp::rseq_t(f, len));
  unsigned wantb = r == v, wanta = r != v && r == u;
  CHECK(b->asked == wantb && a->asked == wanta && c->out.size() == wanta + wantb, "a request is not served by the session attached last");
  w.ch->shutdown();
  w.run();
  CHECK(b->shutdowns == 1, "an attached session is not shut down exactly once");
  if (u != v) CHECK(a->shutdowns == 1, "an attached session is not shut down exactly once");
  if (wanta) COVER("first");
  if (wantb) COVER("second");
  EXPECT("first"); EXPECT("second");
}
// a session for each of the 256 units, any of them requested
struct One final : IServerSession { unsigned asked = 0, shutdowns = 0; void shutdown() override { shutdowns++; }
  Expected<WriteSingleRegisterResponse> on_request(const WriteSingleRegisterRequest &r) override { asked++; return Expected<WriteSingleRegisterResponse>(WriteSingleRegisterResponse{r.value}); } };
HARNESS(s03_all_units) {
  World w;
  static std::shared_ptr<One> s[256], t[256];
  bool replaced = sx::any_bool("replaced");
  for (unsigned u = 0; u < 256; u++) { s[u] = std::make_shared<One>(); w.ch->add_session(UnitIdentifier((uint8_t)u), s[u]); }
  if (replaced) for (unsigned u = 0; u < 256; u++) { t[u] = std::make_shared<One>(); w.ch->add_session(UnitIdentifier((uint8_t)(u * 7 + 3)), t[u]); }
  w.ch->start();
  while (w.ex->num_active()) w.ex->run_one();
  auto c = w.connect();
  uint8_t p[5] = {6, 0, 1, 0, 2}, f[20];
  uint16_t first = sx::any<uint16_t>("transaction");
  unsigned bad = 0;
  for (unsigned r = 0; r < 256; r++) {
    unsigned len = frame(f, (uint16_t)(first + r), (uint8_t)r, p, 5);
    c->l->on_receive(ser4cpp::rseq_t(f, len));
    bad |= c->out.size() != r + 1;
    for (unsigned u = 0; u < 256; u++) {
      bad |= s[u]->asked ^ (unsigned)((u <= r) & !replaced);
      if (replaced) bad |= t[u]->asked ^ (unsigned)((uint8_t)(u * 7 + 3) <= r);
    }
  }
  CHECK(!bad, "a request is not served by the session attached last");
  w.ch->shutdown();
  while (w.ex->num_active()) w.ex->run_one();
  for (unsigned u = 0; u < 256; u++) CHECK(replaced ? t[u]->shutdowns == 1 && s[u]->shutdowns <= 1 : s[u]->shutdowns == 1, "an attached session is not shut down exactly once");
  for (unsigned u = 0; u < 256; u++) { s[u].reset(); t[u].reset(); }
  COVER("all");
  EXPECT("all");
}
