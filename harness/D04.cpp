// D04: concurrent use of the in-memory database is linearizable.
#include "symx.h"
#include "modbus/server/db/InMemoryDatabase.h"
#include "modbus/exceptions/ModbusException.h"
#include <vector>
using namespace modbus;

// Two holding registers (10, 11), two coils (10, 11); register and coil 12 can be added.
struct State { uint16_t reg[3]; bool coil[3], has[2]; };
struct Op { unsigned kind; uint16_t a, b; };
struct Res { bool ok; uint16_t x, y; };
static const unsigned KINDS = 8;

// the operations, one after the other
static Res model(State &s, const Op &o) {
  Res r = {true, 0, 0};
  switch (o.kind) {
  case 0: r.x = s.reg[0]; r.y = s.reg[1]; break;                 // read two registers
  case 1: s.reg[0] = o.a; s.reg[1] = o.b; break;                 // write two registers
  case 2: s.reg[1] = o.a; break;                                 // write a single register
  case 3: r.x = s.reg[0]; s.reg[0] = s.reg[1]; s.reg[1] = r.x; break; // transaction: exchange
  case 4: r.ok = !s.has[0]; s.reg[2] = s.has[0] ? s.reg[2] : o.a; s.has[0] = true; break; // add a register
  case 5: r.ok = s.has[0]; r.x = s.has[0] ? s.reg[2] : 0; break; // read the register that is added
  case 6: s.coil[0] = o.a & 1; s.coil[1] = o.b & 1; break;       // write two coils
  case 7: r.x = s.coil[0]; r.y = s.coil[1]; break;               // read two coils
  }
  return r;
}
static Res real(InMemoryDatabase &db, const Op &o) {
  IServerSession &s = db;
  Res r = {true, 0, 0};
  switch (o.kind) {
  case 0: { auto e = s.on_request(ReadHoldingRegistersRequest{10, 2}); r.ok = e.is_valid() && e.get().values.size() == 2; if (r.ok) { r.x = e.get().values[0].value; r.y = e.get().values[1].value; } break; }
  case 1: { WriteMultipleRegistersRequest q; q.starting_address = 10; q.values = {o.a, o.b}; r.ok = s.on_request(q).is_valid(); break; }
  case 2: r.ok = s.on_request(WriteSingleRegisterRequest{RegisterValue{11, o.a}}).is_valid(); break;
  case 3: db.execute_transaction([&](IDatabase &d) {
      uint16_t a = 0, b = 0;
      r.ok = d.get_holding_register(10, a) && d.get_holding_register(11, b);
      symx_yield(); // a transaction may take its time
      r.ok = r.ok && d.set_holding_register(10, b) && d.set_holding_register(11, a);
      r.x = a;
    }); break;
  case 4: r.ok = db.add_holding_register(12, o.a); break;
  case 5: { auto e = s.on_request(ReadHoldingRegistersRequest{12, 1}); r.ok = e.is_valid(); if (r.ok) r.x = e.get().values[0].value; break; }
  case 6: { WriteMultipleCoilsRequest q; q.starting_address = 10; q.values = {(o.a & 1) != 0, (o.b & 1) != 0}; r.ok = s.on_request(q).is_valid(); break; }
  case 7: { auto e = s.on_request(ReadCoilsRequest{10, 2}); r.ok = e.is_valid() && e.get().values.size() == 2; if (r.ok) { r.x = e.get().values[0].value; r.y = e.get().values[1].value; } break; }
  }
  return r;
}
static const int MAXT = 3, MAXO = 2;
static InMemoryDatabase *db;
static Op op[MAXT][MAXO];
static Res res[MAXT][MAXO];
static size_t nops[MAXT];
static void worker(void *p) {
  size_t t = (size_t)(uintptr_t)p;
  for (size_t i = 0; i < nops[t]; i++) res[t][i] = real(*db, op[t][i]);
}
static bool agree(const State &init, const State &fin, size_t threads, size_t *at, size_t left) {
  // is there an order in which the operations give these results and this final state?
  static State st;
  static Op order[6];
  static Res want[6];
  static size_t n = 0;
  if (!left) {
    st = init;
    bool r = true;
    for (size_t i = 0; i < n; i++) {
      Res x = model(st, order[i]);
      r = r & (x.ok == want[i].ok) & (x.x == want[i].x) & (x.y == want[i].y);
    }
    for (int i = 0; i < 2; i++) r = r & (st.reg[i] == fin.reg[i]) & (st.coil[i] == fin.coil[i]);
    return r & (st.has[0] == fin.has[0]) & (!fin.has[0] | (st.reg[2] == fin.reg[2]));
  }
  bool any = false;
  for (size_t t = 0; t < threads; t++) {
    if (at[t] >= nops[t]) continue;
    order[n] = op[t][at[t]]; want[n] = res[t][at[t]];
    n++; at[t]++;
    any = any | agree(init, fin, threads, at, left - 1);
    n--; at[t]--;
  }
  return any;
}
static void run(size_t threads, size_t per) {
  InMemoryDatabase d;
  db = &d;
  State s = {};
  for (int i = 0; i < 2; i++) {
    s.reg[i] = sx::any<uint16_t>("reg");
    s.coil[i] = sx::any_bool("coil");
    d.add_holding_register((Address)(10 + i), s.reg[i]);
    d.add_coil((Address)(10 + i), s.coil[i]);
  }
  long first = symx_param("first", -1);
  unsigned prev = 0;
  for (size_t t = 0; t < threads; t++) { // the threads are interchangeable: their programs are in ascending order
    nops[t] = per;
    unsigned prog = 0;
    for (size_t i = 0; i < per; i++) {
      op[t][i].kind = t == 0 && i == 0 && first >= 0 ? (unsigned)first : sx::pick("op", KINDS);
      prog = prog * KINDS + op[t][i].kind;
      if (i + 1 == per) ASSUME(prog >= prev);
      op[t][i].a = sx::any<uint16_t>("a");
      op[t][i].b = sx::any<uint16_t>("b");
    }
    prev = prog;
  }
  uint64_t h[MAXT];
  for (size_t t = 1; t < threads; t++) h[t] = symx_spawn(worker, (void *)(uintptr_t)t);
  worker((void *)0);
  for (size_t t = 1; t < threads; t++) symx_join(h[t]);
  State f = {};
  d.execute_transaction([&](IDatabase &x) {
    for (int i = 0; i < 2; i++) CHECK(x.get_holding_register((Address)(10 + i), f.reg[i]) && x.get_coil((Address)(10 + i), f.coil[i]), "a value disappeared");
    f.has[0] = x.get_holding_register(12, f.reg[2]);
  });
  size_t at[MAXT] = {};
  CHECK(agree(s, f, threads, at, threads * per), "no sequential order of the operations explains their results");
  COVER("finished");
  EXPECT("finished");
}
HARNESS(d04_two) { run(2, (size_t)symx_param("per", 2)); }
HARNESS(d04_three) { run(3, (size_t)symx_param("per", 1)); }

// every public operation against every other one: four tables with the addresses 10 and 11, address 12 can be added
struct All { uint16_t v[4][3]; bool has[4]; };
struct Got { bool ok; uint16_t x[4][3]; };
static const unsigned EVERY = 17;
static Got model(All &s, const Op &o) {
  Got r = {};
  r.ok = true;
  unsigned k = o.kind;
  if (k < 4) for (int i = 0; i < 2; i++) r.x[k][i] = s.v[k][i];                       // read two values
  else if (k == 4) s.v[0][1] = o.a & 1;                                               // write a single coil
  else if (k == 5) s.v[2][1] = o.a;                                                   // write a single register
  else if (k == 6) { s.v[0][0] = o.a & 1; s.v[0][1] = o.b & 1; }                      // write coils
  else if (k == 7) { s.v[2][0] = o.a; s.v[2][1] = o.b; }                              // write registers
  else if (k < 12) { unsigned t = k - 8; r.ok = !s.has[t]; s.v[t][2] = s.has[t] ? s.v[t][2] : (uint16_t)(t < 2 ? o.a & 1 : o.a); s.has[t] = true; } // add
  else if (k == 12) for (int t = 0; t < 4; t++) { for (int i = 0; i < 2; i++) r.x[t][i] = s.v[t][i]; uint16_t q = s.v[t][0]; s.v[t][0] = s.v[t][1]; s.v[t][1] = q; } // exchange in every table
  else { unsigned t = k - 13; r.ok = s.has[t]; for (int i = 0; i < 3; i++) r.x[t][i] = s.has[t] ? s.v[t][i] : 0; } // read three values
  return r;
}
template <class E> static void took(Got &r, unsigned t, const E &e, size_t n) {
  r.ok = e.is_valid();
  if (!r.ok) return;
  CHECK(e.get().values.size() == n, "a read returns another number of values");
  for (size_t i = 0; i < n; i++) r.x[t][i] = (uint16_t)e.get().values[i].value;
}
static void read(Got &r, IServerSession &s, unsigned t, uint16_t n) {
  switch (t) {
  case 0: took(r, t, s.on_request(ReadCoilsRequest{10, n}), n); break;
  case 1: took(r, t, s.on_request(ReadDiscreteInputsRequest{10, n}), n); break;
  case 2: took(r, t, s.on_request(ReadHoldingRegistersRequest{10, n}), n); break;
  case 3: took(r, t, s.on_request(ReadInputRegistersRequest{10, n}), n); break;
  }
}
static bool get1(IDatabase &d, unsigned t, Address a, uint16_t &x) {
  bool b = false, r;
  switch (t) {
  case 0: r = d.get_coil(a, b); x = b; return r;
  case 1: r = d.get_discrete_input(a, b); x = b; return r;
  case 2: return d.get_holding_register(a, x);
  default: return d.get_input_register(a, x);
  }
}
static bool set1(IDatabase &d, unsigned t, Address a, uint16_t x) {
  switch (t) {
  case 0: return d.set_coil(a, x != 0);
  case 1: return d.set_discrete_input(a, x != 0);
  case 2: return d.set_holding_register(a, x);
  default: return d.set_input_register(a, x);
  }
}
static bool add1(InMemoryDatabase &d, unsigned t, Address a, uint16_t x) {
  switch (t) {
  case 0: return d.add_coil(a, (x & 1) != 0);
  case 1: return d.add_discrete_input(a, (x & 1) != 0);
  case 2: return d.add_holding_register(a, x);
  default: return d.add_input_register(a, x);
  }
}
static Got real_every(InMemoryDatabase &d, const Op &o) {
  IServerSession &s = d;
  Got r = {};
  r.ok = true;
  unsigned k = o.kind;
  if (k < 4) read(r, s, k, 2);
  else if (k == 4) r.ok = s.on_request(WriteSingleCoilRequest{SingleBitValue{11, (o.a & 1) != 0}}).is_valid();
  else if (k == 5) r.ok = s.on_request(WriteSingleRegisterRequest{RegisterValue{11, o.a}}).is_valid();
  else if (k == 6) { WriteMultipleCoilsRequest q; q.starting_address = 10; q.values = {(o.a & 1) != 0, (o.b & 1) != 0}; r.ok = s.on_request(q).is_valid(); }
  else if (k == 7) { WriteMultipleRegistersRequest q; q.starting_address = 10; q.values = {o.a, o.b}; r.ok = s.on_request(q).is_valid(); }
  else if (k < 12) r.ok = add1(d, k - 8, 12, o.a);
  else if (k == 12) d.execute_transaction([&](IDatabase &x) {
    for (unsigned t = 0; t < 4; t++) {
      r.ok = get1(x, t, 10, r.x[t][0]) && get1(x, t, 11, r.x[t][1]) && r.ok;
      if (t == 1 || t == 2) symx_yield();
      r.ok = set1(x, t, 10, r.x[t][1]) && r.ok;
      symx_yield();
      r.ok = set1(x, t, 11, r.x[t][0]) && r.ok;
    }
  });
  else read(r, s, k - 13, 3);
  return r;
}
static Got got[2];
static void worker_every(void *p) { size_t t = (size_t)(uintptr_t)p; got[t] = real_every(*db, op[t][0]); }
static bool same_got(const Got &a, const Got &b) {
  unsigned d = a.ok ^ b.ok;
  for (int t = 0; t < 4; t++) for (int i = 0; i < 3; i++) d |= (unsigned)(a.x[t][i] ^ b.x[t][i]);
  return d == 0;
}
HARNESS(d04_every) {
  InMemoryDatabase d;
  db = &d;
  All s = {};
  for (unsigned t = 0; t < 4; t++)
    for (int i = 0; i < 2; i++) {
      if (t < 2) s.v[t][i] = sx::any_bool("bit"); else s.v[t][i] = sx::any<uint16_t>("reg");
      add1(d, t, (Address)(10 + i), s.v[t][i]);
    }
  for (int t = 0; t < 2; t++) {
    op[t][0].kind = sx::pick("op", EVERY);
    op[t][0].a = sx::any<uint16_t>("a");
    op[t][0].b = sx::any<uint16_t>("b");
  }
  ASSUME(op[0][0].kind <= op[1][0].kind);
  uint64_t h = symx_spawn(worker_every, (void *)1);
  worker_every((void *)0);
  symx_join(h);
  All f = {};
  d.execute_transaction([&](IDatabase &x) {
    for (unsigned t = 0; t < 4; t++) {
      for (int i = 0; i < 2; i++) CHECK(get1(x, t, (Address)(10 + i), f.v[t][i]), "a value disappeared");
      f.has[t] = get1(x, t, 12, f.v[t][2]);
      if (!f.has[t]) f.v[t][2] = 0;
    }
  });
  bool fits = false;
  for (int o = 0; o < 2; o++) {
    All m = s;
    Got a = model(m, op[o][0]), b = model(m, op[1 - o][0]);
    bool r = same_got(a, got[o]) & same_got(b, got[1 - o]);
    for (int t = 0; t < 4; t++) { r = r & (m.has[t] == f.has[t]); for (int i = 0; i < 3; i++) r = r & (m.v[t][i] == f.v[t][i]); }
    fits = fits | r;
  }
  CHECK(fits, "no sequential order of the operations explains their results");
  COVER("finished");
  EXPECT("finished");
}
