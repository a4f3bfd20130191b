// D05: a transaction always ends with the database usable.
#include "symx.h"
#include "modbus/server/db/InMemoryDatabase.h"
#include "modbus/exceptions/ModbusException.h"
#include <functional>
#include <stdexcept>
using namespace modbus;

struct Mine { uint32_t v; };
struct Tab { bool coil[2], disc[2]; uint16_t hold[2], inp[2]; };
static void load(InMemoryDatabase &d, Tab &t) {
  for (int i = 0; i < 2; i++) {
    t.coil[i] = sx::any_bool("coil"); t.disc[i] = sx::any_bool("disc");
    t.hold[i] = sx::any<uint16_t>("hold"); t.inp[i] = sx::any<uint16_t>("inp");
    d.add_coil((Address)i, t.coil[i]); d.add_discrete_input((Address)i, t.disc[i]);
    d.add_holding_register((Address)i, t.hold[i]); d.add_input_register((Address)i, t.inp[i]);
  }
}
static void is(IDatabase &d, const Tab &t, const char *) {
  for (Address i = 0; i < 2; i++) {
    bool b = !t.coil[i], c = !t.disc[i];
    uint16_t h = (uint16_t)~t.hold[i], n = (uint16_t)~t.inp[i];
    CHECK(d.get_coil(i, b) && b == t.coil[i], "a transaction does not observe the state it should");
    CHECK(d.get_discrete_input(i, c) && c == t.disc[i], "a transaction does not observe the state it should");
    CHECK(d.get_holding_register(i, h) && h == t.hold[i], "a transaction does not observe the state it should");
    CHECK(d.get_input_register(i, n) && n == t.inp[i], "a transaction does not observe the state it should");
  }
  bool b = true; uint16_t h = 7;
  CHECK(!d.get_coil(2, b) && !d.get_discrete_input(2, b) && !d.get_holding_register(2, h) && !d.get_input_register(2, h) && b && h == 7, "a transaction finds an address that does not exist");
}
static InMemoryDatabase *g;
static Tab t;
static uint16_t seen;
static bool served;
static void other(void *) {
  IServerSession &s = *g;
  auto e = s.on_request(ReadHoldingRegistersRequest{0, 1});
  served = e.is_valid();
  if (served) seen = e.get().values[0].value;
  g->add_coil(40, true);
}
HARNESS(d05_transaction) {
  InMemoryDatabase db;
  g = &db;
  load(db, t);
  size_t writes = (size_t)symx_param("writes", 2);
  size_t stop = sx::pick("throws after", (unsigned)writes + 2); // == writes + 1: never
  unsigned what = sx::pick("throws", 4);
  uint32_t mark = sx::any<uint32_t>("mark");
  auto body = [&](IDatabase &d) {
    is(d, t, "at the start");
    for (size_t k = 0; k <= writes; k++) {
      if (k == stop) switch (what) {
        case 0: throw Mine{mark};
        case 1: throw std::runtime_error("transaction");
        case 2: throw ModbusException(ExceptionType::ServerDeviceBusy);
        case 3: throw (int)mark;
      }
      if (k == writes) break;
      Address a = (Address)sx::pick("address", 3); // 2 does not exist
      bool r = false;
      switch (sx::pick("write", 4)) {
      case 0: { bool v = sx::any_bool("v"); r = d.set_coil(a, v); if (a < 2) t.coil[a] = v; break; }
      case 1: { bool v = sx::any_bool("v"); r = d.set_discrete_input(a, v); if (a < 2) t.disc[a] = v; break; }
      case 2: { uint16_t v = sx::any<uint16_t>("v"); r = d.set_holding_register(a, v); if (a < 2) t.hold[a] = v; break; }
      case 3: { uint16_t v = sx::any<uint16_t>("v"); r = d.set_input_register(a, v); if (a < 2) t.inp[a] = v; break; }
      }
      CHECK(r == (a < 2), "a write in a transaction succeeds or fails wrongly");
      is(d, t, "after a write");
    }
  };
  unsigned caught = 9;
  try { db.execute_transaction(body); }
  catch (const Mine &m) { caught = 0; CHECK(m.v == mark, "the exception of a transaction was altered"); }
  catch (const std::runtime_error &) { caught = 1; }
  catch (const ModbusException &m) { caught = 2; CHECK(m.get_exception_type() == ExceptionType::ServerDeviceBusy, "the exception of a transaction was altered"); }
  catch (int m) { caught = 3; CHECK((uint32_t)m == mark, "the exception of a transaction was altered"); }
  catch (...) { caught = 8; }
  CHECK(caught == (stop <= writes ? what : 9), "the exception of a transaction does not reach its caller");
  if (caught != 9) COVER("thrown"); else COVER("completed");
  // usable from here and from any other thread, with the effects kept
  if (symx_param("thread", 0)) {
    uint64_t h = symx_spawn(other, nullptr);
    symx_join(h);
  } else other(nullptr);
  CHECK(served && seen == t.hold[0], "the database is not usable after a transaction, or lost its effects");
  bool ran = false;
  db.execute_transaction([&](IDatabase &d) { is(d, t, "afterwards"); ran = true; });
  CHECK(ran, "a transaction is not executed");
  CHECK(db.add_input_register(50, 1), "the database is not usable after a transaction");
  symx_observe("caught", caught);
  EXPECT("thrown");
  EXPECT("completed");
}
HARNESS(d05_empty) { // not even an empty function leaves the database locked
  InMemoryDatabase db;
  g = &db;
  load(db, t);
  bool thrown = false;
  try { db.execute_transaction(std::function<void(IDatabase &)>()); } catch (const std::bad_function_call &) { thrown = true; }
  CHECK(thrown, "an empty transaction does not report that it is empty");
  other(nullptr);
  CHECK(served && seen == t.hold[0], "the database is not usable after a transaction, or lost its effects");
  COVER("usable");
  EXPECT("usable");
}
