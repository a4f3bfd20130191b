// D01: a value table behaves like a map from addresses to values.
#include "symx.h"
#include "modbus/server/db/BitDatabase.h"
#include "modbus/server/db/RegisterDatabase.h"
#include <vector>
using namespace modbus;

template <class V> static V any_value(const char *n);
template <> bool any_value<bool>(const char *n) { return sx::any_bool(n); }
template <> uint16_t any_value<uint16_t>(const char *n) { return sx::any<uint16_t>(n); }

// what the table must contain
template <class V> struct Map {
  size_t n = 0;
  Address a[8];
  V v[8];
  bool has(Address x) const { bool r = false; for (size_t i = 0; i < n; i++) r = r | (a[i] == x); return r; }
  V get(Address x) const { V r{}; for (size_t i = 0; i < n; i++) r = a[i] == x ? v[i] : r; return r; }
  void set(Address x, V y) { for (size_t i = 0; i < n; i++) v[i] = a[i] == x ? y : v[i]; }
  void add(Address x, V y) { a[n] = x; v[n] = y; n++; }
};
template <class V> static void lookup(const SingleTypeDatabase<V> &db, const Map<V> &m, Address q) {
  V before = any_value<V>("output"), out = before;
  bool ok = db.get_value(q, out);
  CHECK(ok == m.has(q), "reading an address succeeds or fails wrongly");
  CHECK(!ok | (out == m.get(q)), "reading an address returns another value than last written");
  CHECK(ok | (out == before), "a failed read changes the output");
  CHECK(db.is_valid(q) == ok, "is_valid disagrees with reading");
}
template <class V> static void history() {
  SingleTypeDatabase<V> db;
  Map<V> m;
  size_t n = (size_t)symx_param("ops", 3);
  for (size_t k = 0; k < n; k++) {
    unsigned op = sx::pick("op", 4);
    Address a = sx::any<Address>("addr");
    V v = any_value<V>("value");
    if (op == 0) {
      bool r = db.add_value(a, v), had = m.has(a);
      CHECK(r == !had, "adding succeeds for an existing address or fails for a new one");
      if (r) m.add(a, v); else COVER("add refused");
    } else if (op == 1) {
      bool r = db.set_value(a, v);
      CHECK(r == m.has(a), "writing succeeds for an absent address or fails for an existing one");
      if (r) { m.set(a, v); COVER("written"); } else COVER("write refused");
    } else if (op == 2) {
      lookup(db, m, a);
    } else { // through the range operations, one value
      std::vector<V> w(1, v);
      bool r = db.set_values(a, w);
      CHECK(r == m.has(a), "writing a single-value range succeeds or fails wrongly");
      if (r) { m.set(a, v); COVER("range of one"); }
    }
  }
  // a copy of the table has the same contents and a life of its own
  SingleTypeDatabase<V> copy(db);
  Map<V> cm = m;
  if (m.n) {
    V v = any_value<V>("value");
    CHECK(db.set_value(m.a[0], v), "writing an existing address fails");
    m.set(m.a[0], v);
  }
  // any address at all, then every address used
  lookup(db, m, sx::any<Address>("query"));
  for (size_t i = 0; i < m.n; i++) {
    V x{};
    CHECK(db.get_value(m.a[i], x) && x == m.v[i], "an operation on one address affected another");
    V y{};
    CHECK(copy.get_value(m.a[i], y) && y == cm.v[i], "a copy of a table is not independent of its original");
  }
  symx_observe("n", m.n);
  EXPECT("add refused");
  EXPECT("written");
  EXPECT("write refused");
  EXPECT("range of one");
}
HARNESS(d01_bits) { history<bool>(); }
HARNESS(d01_registers) { history<uint16_t>(); }

// larger tables: the order in which addresses are added does not matter
template <class V> static void many() {
  SingleTypeDatabase<V> db;
  size_t n = (size_t)symx_param("n", 24), step = sx::pick("step", 4);
  static const unsigned ST[] = {1, 5, 7, 11};
  static V v[64];
  unsigned place = sx::pick("base", 3);
  uint16_t base = place == 0 ? 0 : place == 1 ? 1000 : (uint16_t)(65536 - 3 * n);
  for (size_t i = 0; i < n; i++) {
    size_t j = (i * ST[step]) % n;
    v[j] = any_value<V>("value");
    CHECK(db.add_value((Address)(base + 3 * j), v[j]), "adding a new address fails");
  }
  size_t w = sx::pick("which", (unsigned)n);
  V x = any_value<V>("new");
  CHECK(db.set_value((Address)(base + 3 * w), x), "writing an existing address fails");
  CHECK(!db.add_value((Address)(base + 3 * w), (V)!x), "adding an existing address succeeds");
  v[w] = x;
  for (size_t i = 0; i < n; i++) {
    V o{};
    CHECK(db.get_value((Address)(base + 3 * i), o) && o == v[i], "an operation on one address affected another");
    CHECK(!db.is_valid((Address)(base + 3 * i + 1)) && !db.set_value((Address)(base + 3 * i + 2), x), "an absent address is valid");
  }
  COVER("many");
  EXPECT("many");
}
HARNESS(d01_many_bits) { many<bool>(); }
HARNESS(d01_many_registers) { many<uint16_t>(); }

// every address there is, and more writes than any counter of sixteen bits
template <class V> static void full() {
  static SingleTypeDatabase<V> db;
  unsigned n = 65536, turn = sx::pick("order", 3);
  V v = any_value<V>("value");
  for (unsigned i = 0; i < n; i++) {
    Address a = (Address)(turn == 0 ? i : turn == 1 ? n - 1 - i : i * 40503u);
    CHECK(db.add_value(a, (V)(i & 1 ? v : (V)i)), "adding a new address fails");
  }
  for (unsigned k = 0; k < 3; k++) {
    Address a = (Address)(k * 32767);
    CHECK(!db.add_value(a, v) && db.is_valid(a), "adding an existing address succeeds");
  }
  for (unsigned i = 0; i < n; i += 1 + 96 * (turn != 0)) {
    Address a = (Address)(turn == 0 ? i : turn == 1 ? n - 1 - i : i * 40503u);
    V o{};
    CHECK(db.get_value(a, o) && o == (i & 1 ? v : (V)i), "an operation on one address affected another");
    CHECK(db.set_value(a, v), "writing an existing address fails");
    CHECK(db.get_value(a, o) && o == v, "reading an address returns another value than last written");
  }
  COVER("full");
  EXPECT("full");
}
HARNESS(d01_full_bits) { full<bool>(); }
HARNESS(d01_full_registers) { full<uint16_t>(); }
