// S08: server sessions may use the library. Two servers receive the same reads; in the first one the user acts inside the handler
// of a session, in the second one right after the read. Nobody outside can tell them apart.
#include "sworld.h"
using namespace sw;

enum Use { ADD_OWN, ADD_OTHER, ADD_SELF, ADD_TWICE, SHUT, SHUT_ADD, ADD_SHUT, START, RELEASE, NUSE };
static const unsigned NS = 4;
struct User;
struct Asked final : IServerSession {
  User *u = nullptr;
  unsigned i = 0;
  void shutdown() override;
  template <class Req, class Resp> Expected<Resp> on(const Req &, const Resp &r);
  Expected<ReadCoilsResponse> on_request(const ReadCoilsRequest &r) override;
  Expected<ReadDiscreteInputsResponse> on_request(const ReadDiscreteInputsRequest &r) override;
  Expected<ReadHoldingRegistersResponse> on_request(const ReadHoldingRegistersRequest &r) override;
  Expected<ReadInputRegistersResponse> on_request(const ReadInputRegistersRequest &r) override;
  Expected<WriteSingleCoilResponse> on_request(const WriteSingleCoilRequest &r) override;
  Expected<WriteSingleRegisterResponse> on_request(const WriteSingleRegisterRequest &r) override;
  Expected<WriteMultipleCoilsResponse> on_request(const WriteMultipleCoilsRequest &r) override;
  Expected<WriteMultipleRegistersResponse> on_request(const WriteMultipleRegistersRequest &r) override;
};
struct Line { uint8_t what, who; };
struct User {
  World w;
  std::shared_ptr<IServerChannel> owner; // the manager's pointer
  std::shared_ptr<Conn> c[2];
  std::shared_ptr<Asked> s[NS];
  bool inside, in_shutdown, due = false, done = false, in_request = false;
  unsigned use, answer, downs[NS] = {};
  Line line[64];
  unsigned n = 0;
  User(bool in, bool sd, unsigned u, unsigned a) : inside(in), in_shutdown(sd), use(u), answer(a) {
    for (unsigned i = 0; i < NS; i++) { s[i] = std::make_shared<Asked>(); s[i]->u = this; s[i]->i = i; }
    owner = w.ch;
    w.ch->add_session(UnitIdentifier(1), s[0]);
    w.ch->add_session(UnitIdentifier(2), s[1]);
    w.ch->start();
    w.run();
    for (auto &x : c) x = w.connect();
  }
  void note(uint8_t what, unsigned who) {
    CHECK(n < 64, "the events do not end");
    line[n++] = Line{what, (uint8_t)who};
  }
  void handler(bool sd, unsigned who) {
    if (who != 0 || sd != in_shutdown || done || due) return;
    if (inside) { done = true; act(); }
    else due = true;
  }
  void after() { if (due) { due = false; done = true; act(); } }
  void add(unsigned unit, unsigned i) { if (w.ch) w.ch->add_session(UnitIdentifier((uint8_t)unit), s[i]); }
  void act() {
    switch (use) {
    case ADD_OWN: add(1, 2); break;
    case ADD_OTHER: add(2, 2); add(3, 2); break;
    case ADD_SELF: add(3, 0); break;
    case ADD_TWICE: add(1, 2); add(1, 3); break;
    case SHUT: w.ch->shutdown(); break;
    case SHUT_ADD: w.ch->shutdown(); add(1, 2); break;
    case ADD_SHUT: add(1, 2); w.ch->shutdown(); break;
    case START: w.ch->start(); break;
    case RELEASE: w.ch.reset(); for (auto &x : s) x.reset(); break;
    }
  }
  void run() { for (unsigned k = 0; k < 64 && w.ex->num_active(); k++) { w.ex->run_one(); after(); } }
  // a read of the two given requests
  void read(unsigned k, const uint8_t *b, unsigned len) {
    c[k]->l->on_receive(ser4cpp::rseq_t(b, len));
    after();
    run();
  }
};
static uint16_t value;
void Asked::shutdown() { u->note(1, i); u->downs[i]++; User *x = u; unsigned k = i; x->handler(true, k); }
template <class Req, class Resp> Expected<Resp> Asked::on(const Req &, const Resp &r) {
  CHECK(!u->in_request, "a session is asked while another request is being served");
  u->in_request = true;
  u->note(0, i);
  u->handler(false, i);
  u->in_request = false;
  if (u->answer == MODBUS) return Expected<Resp>::from_exception(ModbusException{ExceptionType::ServerDeviceBusy});
  if (u->answer == OTHER_ERROR) return Expected<Resp>::from_exception(ConnectionException{"no"});
  return Expected<Resp>(r);
}
Expected<ReadCoilsResponse> Asked::on_request(const ReadCoilsRequest &r) { ReadCoilsResponse x; x.values.push_back(SingleBitValue{r.starting_address, true}); return on(r, x); }
Expected<ReadDiscreteInputsResponse> Asked::on_request(const ReadDiscreteInputsRequest &r) { ReadDiscreteInputsResponse x; x.values.push_back(SingleBitValue{r.starting_address, true}); return on(r, x); }
Expected<ReadHoldingRegistersResponse> Asked::on_request(const ReadHoldingRegistersRequest &r) { ReadHoldingRegistersResponse x; x.values.push_back(RegisterValue{r.starting_address, value}); return on(r, x); }
Expected<ReadInputRegistersResponse> Asked::on_request(const ReadInputRegistersRequest &r) { ReadInputRegistersResponse x; x.values.push_back(RegisterValue{r.starting_address, value}); return on(r, x); }
Expected<WriteSingleCoilResponse> Asked::on_request(const WriteSingleCoilRequest &r) { return on(r, WriteSingleCoilResponse{r.value}); }
Expected<WriteSingleRegisterResponse> Asked::on_request(const WriteSingleRegisterRequest &r) { return on(r, WriteSingleRegisterResponse{r.value}); }
Expected<WriteMultipleCoilsResponse> Asked::on_request(const WriteMultipleCoilsRequest &r) { return on(r, WriteMultipleCoilsResponse{r.starting_address, (uint16_t)r.values.size()}); }
Expected<WriteMultipleRegistersResponse> Asked::on_request(const WriteMultipleRegistersRequest &r) { return on(r, WriteMultipleRegistersResponse{r.starting_address, (uint16_t)r.values.size()}); }

static const uint8_t REQ[8][8] = {{1, 0, 1, 0, 1}, {2, 0, 1, 0, 1}, {3, 0, 1, 0, 1}, {4, 0, 1, 0, 1}, {5, 0, 1, 0xFF, 0}, {6, 0, 1, 0, 7}, {15, 0, 1, 0, 1, 1, 1}, {16, 0, 1, 0, 1, 2, 0, 9}};
static const unsigned LEN[8] = {5, 5, 5, 5, 5, 5, 7, 8};

HARNESS(s08_inside) {
  bool sd = symx_param("shutdown", 0) != 0;
  unsigned use = sx::pick("use", NUSE), answer = sd ? 0 : sx::pick("answer", 3), f = sd ? 5 : sx::pick("function", 8), second = sx::pick("second", 3);
  value = sx::any<uint16_t>("value");
  uint16_t tid = sx::any<uint16_t>("transaction");
  User *u[2];
  u[0] = new User(true, sd, use, answer);
  u[1] = new User(false, sd, use, answer);
  for (User *x : u) {
    uint8_t b[40];
    unsigned len = frame(b, tid, 1, REQ[f], LEN[f]);
    if (second) len += frame(b + len, (uint16_t)(tid + 1), (uint8_t)second, REQ[5], 5); // in the same read
    if (!sd) x->read(0, b, len);
    else { x->w.ch->shutdown(); x->run(); }
    for (unsigned unit = 1; unit <= 3; unit++) {
      unsigned l = frame(b, (uint16_t)(10 + unit), (uint8_t)unit, REQ[3], 5);
      x->read(unit == 2 ? 1 : 0, b, l);
    }
    CHECK(x->done, "the handler of a session is not called");
    if (use == RELEASE) COVER("released");
    auto owner = x->owner;
    owner->shutdown();
    x->run();
    unsigned l = frame(b, 20, 1, REQ[5], 5);
    x->read(0, b, l);
  }
  User &a = *u[0], &b = *u[1];
  const char *differ = "what follows depends on whether the library is used inside a handler or after it";
  CHECK(a.n == b.n && a.w.server->starts == b.w.server->starts && a.w.server->shutdowns == b.w.server->shutdowns, differ);
  for (unsigned i = 0; i < a.n; i++) CHECK(a.line[i].what == b.line[i].what && a.line[i].who == b.line[i].who, differ);
  for (unsigned k = 0; k < 2; k++) {
    CHECK(a.c[k]->out.size() == b.c[k]->out.size(), differ);
    for (unsigned i = 0; i < a.c[k]->out.size(); i++) {
      const Sent &x = a.c[k]->out[i], &y = b.c[k]->out[i];
      CHECK(x.n == y.n && same(x.b, y.b, x.n), differ);
    }
  }
  // and it has its effect
  CHECK(a.w.server->shutdowns == 1, "the server is not shut down exactly once");
  if (!sd) {
    unsigned first = answer == OTHER_ERROR ? 0 : 1;
    CHECK(a.c[0]->out.size() >= first, "the request whose handler used the library is not answered");
    if (first) CHECK(a.c[0]->out[0].b[0] == (uint8_t)(tid >> 8) && a.c[0]->out[0].b[1] == (uint8_t)tid, "the request whose handler used the library is not answered");
    bool to2 = false, to3 = false;
    for (unsigned i = 0; i < a.n; i++) if (a.line[i].what == 0) { to2 = to2 || a.line[i].who == 2; to3 = to3 || a.line[i].who == 3; }
    if (use == ADD_OWN || use == ADD_OTHER) { CHECK(to2 && a.downs[2] == 1, "a session added inside a handler does not serve its unit"); COVER("added"); }
    if (use == ADD_TWICE) CHECK(to3 && !to2 && a.downs[2] == 0 && a.downs[3] == 1, "a session added inside a handler does not serve its unit");
    if (use == SHUT || use == SHUT_ADD) { CHECK(!to2 && a.downs[0] == 1 && a.downs[1] == 1 && a.downs[2] == 0, "a shutdown inside a handler is not carried out"); COVER("shut down"); }
    EXPECT("added"); EXPECT("shut down");
  } else {
    CHECK(a.downs[0] == 1 && a.downs[1] == 1 && a.downs[2] == 0 && a.downs[3] == 0, "the sessions are not shut down exactly once");
  }
  for (User *x : u) delete x;
  EXPECT("released");
}
