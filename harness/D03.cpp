// D03: the in-memory database answers each function from its own table.
#include "msgs.h"
#include "modbus/server/db/InMemoryDatabase.h"
#include "modbus/exceptions/ModbusException.h"

enum { COIL, DISC, HOLD, INP };
static const size_t MAXN = 2010;
struct Table { Address base; size_t n; uint16_t v[MAXN]; };
static Table t[4];
static bool bits(int k) { return k == COIL || k == DISC; }

static void fill(InMemoryDatabase &db, size_t n) {
  symx_merge(0);
  for (int k = 0; k < 4; k++) {
    t[k].n = n;
    for (size_t i = 0; i < n; i++) {
      bool ok = false;
      Address a = (Address)(t[k].base + i);
      if (bits(k)) t[k].v[i] = sx::any_bool("bit"); else t[k].v[i] = sx::any<uint16_t>("reg");
      switch (k) {
      case COIL: ok = db.add_coil(a, t[k].v[i] != 0); break;
      case DISC: ok = db.add_discrete_input(a, t[k].v[i] != 0); break;
      case HOLD: ok = db.add_holding_register(a, t[k].v[i]); break;
      case INP: ok = db.add_input_register(a, t[k].v[i]); break;
      }
      CHECK(ok, "adding a new address fails");
    }
  }
  symx_merge(1);
}
static bool get(IDatabase &d, int k, Address a, uint16_t &out) {
  bool b = out != 0, r = false;
  switch (k) {
  case COIL: r = d.get_coil(a, b); break;
  case DISC: r = d.get_discrete_input(a, b); break;
  case HOLD: return d.get_holding_register(a, out);
  case INP: return d.get_input_register(a, out);
  }
  out = b;
  return r;
}
static void contents(InMemoryDatabase &db) {
  db.execute_transaction([](IDatabase &d) {
    for (int k = 0; k < 4; k++) {
      for (size_t i = 0; i < t[k].n; i++) {
        uint16_t x = 0;
        CHECK(get(d, k, (Address)(t[k].base + i), x), "an address disappeared");
        CHECK(x == t[k].v[i], "a request changed a value it does not write, or did not write one it should");
      }
      uint16_t x = 0;
      CHECK(!get(d, k, (Address)(t[k].base + t[k].n), x) && !get(d, k, (Address)(t[k].base - 1), x), "a request created an address");
    }
  });
}
template <class R> static bool absent(const Expected<R> &e) {
  return !e.is_valid() && e.template has_exception<ModbusException>() && e.template get_exception<ModbusException>().get_exception_type() == ExceptionType::IllegalDataAddress;
}
template <class R> static bool given(const R &r, int k, Address start, size_t count) {
  if (r.values.size() != count) return false;
  unsigned d = 0;
  for (size_t i = 0; i < count; i++) {
    d |= (unsigned)(r.values[i].address != (Address)(start + i));
    uint16_t want = t[k].v[(Address)(start - t[k].base) + i];
    d |= (unsigned)((uint16_t)r.values[i].value != want);
  }
  return d == 0;
}
template <class Req, class R> static void rd(IServerSession &s, int k, Address start, uint16_t count, bool all) {
  Expected<R> e = s.on_request(Req{start, count});
  if (all) { CHECK(e.is_valid(), "a read of existing addresses fails"); CHECK(given(e.get(), k, start, count), "a read answers other addresses or values than requested"); COVER("answered"); }
  else { CHECK(absent(e), "a read of absent addresses is not answered with illegal data address"); COVER("refused"); }
}
// any request, any place relative to the table it concerns
static void ask(InMemoryDatabase &db, unsigned kind, size_t off, size_t count) {
  IServerSession &s = db;
  static const int TAB[] = {COIL, DISC, HOLD, INP, COIL, HOLD, COIL, HOLD};
  int k = TAB[kind];
  Address start = (Address)(t[k].base + off);
  bool all = off < t[k].n && off + count <= t[k].n;
  switch (kind) {
  case 0: rd<ReadCoilsRequest, ReadCoilsResponse>(s, k, start, (uint16_t)count, all); break;
  case 1: rd<ReadDiscreteInputsRequest, ReadDiscreteInputsResponse>(s, k, start, (uint16_t)count, all); break;
  case 2: rd<ReadHoldingRegistersRequest, ReadHoldingRegistersResponse>(s, k, start, (uint16_t)count, all); break;
  case 3: rd<ReadInputRegistersRequest, ReadInputRegistersResponse>(s, k, start, (uint16_t)count, all); break;
  case 4: {
    all = off < t[k].n;
    bool v = sx::any_bool("value");
    auto e = s.on_request(WriteSingleCoilRequest{SingleBitValue{start, v}});
    if (!all) { CHECK(absent(e), "a write to an absent address is not answered with illegal data address"); break; }
    CHECK(e.is_valid() && e.get().value.address == start && e.get().value.value == v, "a write is not answered with its address and value");
    t[k].v[off] = v;
    COVER("written");
    break; }
  case 5: {
    all = off < t[k].n;
    uint16_t v = sx::any<uint16_t>("value");
    auto e = s.on_request(WriteSingleRegisterRequest{RegisterValue{start, v}});
    if (!all) { CHECK(absent(e), "a write to an absent address is not answered with illegal data address"); break; }
    CHECK(e.is_valid() && e.get().value.address == start && e.get().value.value == v, "a write is not answered with its address and value");
    t[k].v[off] = v;
    COVER("written");
    break; }
  case 6: {
    WriteMultipleCoilsRequest r;
    r.starting_address = start;
    for (size_t i = 0; i < count; i++) r.values.push_back(sx::any_bool("value"));
    auto e = s.on_request(r);
    if (!all) { CHECK(absent(e), "a write to absent addresses is not answered with illegal data address"); break; }
    CHECK(e.is_valid() && e.get().starting_address == start && e.get().qty_of_coils == count, "a write is not answered with its address and quantity");
    for (size_t i = 0; i < count; i++) t[k].v[off + i] = r.values[i];
    COVER("written");
    break; }
  case 7: {
    WriteMultipleRegistersRequest r;
    r.starting_address = start;
    for (size_t i = 0; i < count; i++) r.values.push_back(sx::any<uint16_t>("value"));
    auto e = s.on_request(r);
    if (!all) { CHECK(absent(e), "a write to absent addresses is not answered with illegal data address"); break; }
    CHECK(e.is_valid() && e.get().starting_address == start && e.get().qty_of_registers == count, "a write is not answered with its address and quantity");
    for (size_t i = 0; i < count; i++) t[k].v[off + i] = r.values[i];
    COVER("written");
    break; }
  }
  contents(db);
}
// one or two requests to tables of n values each; the tables overlap in any way
HARNESS(d03_requests) {
  InMemoryDatabase db;
  size_t n = (size_t)symx_param("n", 3), reqs = (size_t)symx_param("requests", 1);
  for (int k = 0; k < 4; k++) {
    t[k].base = sx::any<Address>("base");
    ASSUME(t[k].base >= 8 && t[k].base <= 65535 - 8 - n);
  }
  fill(db, n);
  for (size_t r = 0; r < reqs; r++) {
    unsigned kind = sx::pick("kind", 8);
    size_t off = sx::pick("off", (unsigned)n + 1);
    size_t count = 1 + sx::pick("count", (unsigned)n + 1);
    ask(db, kind, off, count);
  }
  EXPECT("answered");
  EXPECT("refused");
  EXPECT("written");
}
// a request anywhere at all
HARNESS(d03_anywhere) {
  InMemoryDatabase db;
  IServerSession &s = db;
  static const Address B[] = {0, 700, 65532};
  for (int k = 0; k < 4; k++) t[k].base = B[k == 0 ? sx::pick("base", 3) : 1];
  t[2].base = t[3].base = t[1].base = t[0].base;
  size_t n = 4;
  for (int k = 0; k < 4; k++) {
    t[k].n = n;
    for (size_t i = 0; i < n; i++) t[k].v[i] = (uint16_t)((i + k) & 1);
    for (size_t i = 0; i < n; i++) {
      Address a = (Address)(t[k].base + i);
      if (k == COIL) db.add_coil(a, t[k].v[i] != 0);
      if (k == DISC) db.add_discrete_input(a, t[k].v[i] != 0);
      if (k == HOLD) db.add_holding_register(a, t[k].v[i]);
      if (k == INP) db.add_input_register(a, t[k].v[i]);
    }
  }
  Address start = sx::any<Address>("start");
  uint16_t count = (uint16_t)(1 + sx::pick("count", 6));
  unsigned off = (unsigned)start - t[0].base;
  bool all = start >= t[0].base && off + count <= n;
  if (!all && start >= t[0].base && off < n && t[0].base == 65532) COVER("beyond the end");
  switch (sx::pick("kind", 4)) {
  case 0: { auto e = s.on_request(ReadCoilsRequest{start, count}); CHECK(e.is_valid() == all && (all || absent(e)), "a read succeeds or fails wrongly"); break; }
  case 1: { auto e = s.on_request(ReadInputRegistersRequest{start, count}); CHECK(e.is_valid() == all && (all || absent(e)), "a read succeeds or fails wrongly"); break; }
  case 2: { WriteMultipleCoilsRequest r; r.starting_address = start; r.values.assign(count, true); auto e = s.on_request(r); CHECK(e.is_valid() == all && (all || absent(e)), "a write succeeds or fails wrongly");
    if (all) for (unsigned i = 0; i < count; i++) t[COIL].v[symx_concretize(off) + i] = 1; break; }
  case 3: { WriteMultipleRegistersRequest r; r.starting_address = start; r.values.assign(count, 77); auto e = s.on_request(r); CHECK(e.is_valid() == all && (all || absent(e)), "a write succeeds or fails wrongly");
    if (all) for (unsigned i = 0; i < count; i++) t[HOLD].v[symx_concretize(off) + i] = 77; break; }
  }
  db.execute_transaction([](IDatabase &d) {
    for (int k = 0; k < 4; k++) for (size_t i = 0; i < t[k].n; i++) { uint16_t x = 0; CHECK(get(d, k, (Address)(t[k].base + i), x) && x == t[k].v[i], "a request changed a value it does not write, or did not write one it should"); }
  });
  if (all) COVER("inside");
  EXPECT("inside");
  EXPECT("beyond the end");
}
// requests as large as Modbus allows
HARNESS(d03_large) {
  InMemoryDatabase db;
  static const uint16_t LIM[] = {2000, 2000, 125, 125, 1, 1, 1968, 123};
  unsigned kind = sx::pick("kind", 8);
  size_t count = LIM[kind] - sx::pick("less", 2);
  if (!count) count = 1;
  for (int k = 0; k < 4; k++) { t[k].base = (Address)(1000 + 10 * k); t[k].n = 0; }
  static const int TAB[] = {COIL, DISC, HOLD, INP, COIL, HOLD, COIL, HOLD};
  int k = TAB[kind];
  size_t n = count + 1;
  for (int q = 0; q < 4; q++) {
    t[q].n = q == k ? n : 2;
    for (size_t i = 0; i < t[q].n; i++) {
      Address a = (Address)(t[q].base + i);
      if (bits(q)) t[q].v[i] = sx::any_bool("bit"); else t[q].v[i] = sx::any<uint16_t>("reg");
      if (q == COIL) db.add_coil(a, t[q].v[i] != 0);
      if (q == DISC) db.add_discrete_input(a, t[q].v[i] != 0);
      if (q == HOLD) db.add_holding_register(a, t[q].v[i]);
      if (q == INP) db.add_input_register(a, t[q].v[i]);
    }
  }
  size_t off = sx::pick("off", 3);
  ask(db, kind, off, count);
  EXPECT("answered");
  EXPECT("refused");
  EXPECT("written");
}

// the four tables through every way there is to them: each is a map of its own
namespace tables {
struct M { unsigned n = 0; Address a[8]; uint16_t v[8];
  bool has(Address x) const { bool r = false; for (unsigned i = 0; i < n; i++) r = r | (a[i] == x); return r; }
  uint16_t get(Address x) const { uint16_t r = 0; for (unsigned i = 0; i < n; i++) r = a[i] == x ? v[i] : r; return r; }
  void set(Address x, uint16_t y) { for (unsigned i = 0; i < n; i++) v[i] = a[i] == x ? y : v[i]; } };
static bool get(IDatabase &d, unsigned t, Address a, uint16_t &x) {
  bool b = x != 0, r;
  if (t == 2) return d.get_holding_register(a, x);
  if (t == 3) return d.get_input_register(a, x);
  r = t == 0 ? d.get_coil(a, b) : d.get_discrete_input(a, b);
  x = b;
  return r;
}
static bool set(IDatabase &d, unsigned t, Address a, uint16_t x) {
  switch (t) {
  case 0: return d.set_coil(a, x != 0);
  case 1: return d.set_discrete_input(a, x != 0);
  case 2: return d.set_holding_register(a, x);
  default: return d.set_input_register(a, x);
  }
}
static bool add(InMemoryDatabase &d, unsigned t, Address a, uint16_t x) {
  switch (t) {
  case 0: return d.add_coil(a, x != 0);
  case 1: return d.add_discrete_input(a, x != 0);
  case 2: return d.add_holding_register(a, x);
  default: return d.add_input_register(a, x);
  }
}
static uint16_t value(unsigned t, const char *n) { if (t < 2) return sx::any_bool(n); return sx::any<uint16_t>(n); }
static void look(IDatabase &d, const M &m, unsigned t, Address a, uint16_t before) {
  uint16_t x = before;
  bool ok = get(d, t, a, x);
  CHECK(ok == m.has(a), "an address of a table can be read although it is absent, or the other way round");
  CHECK(x == (ok ? m.get(a) : before), "a table contains a wrong value, or a failed read changes the output");
}
}
HARNESS(d03_tables) {
  using namespace tables;
  InMemoryDatabase d;
  M m[4];
  Address used[8];
  // the same address in all tables but one, which may have it as well
  Address at = sx::any<Address>("addr");
  used[0] = at;
  unsigned missing = (unsigned)symx_param("missing", 4);
  for (unsigned t = 0; t < 4; t++)
    if (t != missing) {
      uint16_t v = value(t, "value");
      CHECK(add(d, t, at, v), "adding a new address fails");
      m[t].a[0] = at; m[t].v[0] = v; m[t].n = 1;
    }
  long steps = symx_param("steps", 2);
  for (long k = 0; k < steps; k++) {
    unsigned t = sx::pick("table", 4), op = sx::pick("op", 3);
    Address a = sx::any<Address>("addr");
    used[k + 1] = a;
    uint16_t v = value(t, "value");
    if (op == 0) {
      bool r = add(d, t, a, v);
      CHECK(r == !m[t].has(a), "adding succeeds for an existing address or fails for a new one");
      if (r) { m[t].a[m[t].n] = a; m[t].v[m[t].n] = v; m[t].n++; COVER("added"); } else COVER("not added");
    } else d.execute_transaction([&](IDatabase &x) {
      if (op == 1) {
        bool r = set(x, t, a, v);
        CHECK(r == m[t].has(a), "writing succeeds for an absent address or fails for an existing one");
        if (r) { m[t].set(a, v); COVER("written"); } else COVER("not written");
      } else look(x, m[t], t, a, v);
    });
  }
  // every table at every address used anywhere
  d.execute_transaction([&](IDatabase &x) {
    for (unsigned t = 0; t < 4; t++)
      for (long k = 0; k <= steps; k++) look(x, m[t], t, used[k], 1);
  });
  EXPECT("added");
  EXPECT("not added");
  EXPECT("written");
  EXPECT("not written");
}
