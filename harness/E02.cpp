// E02: identifiers compare, hash and increment by their numeric value.
#include "symx.h"
#include "modbus/UnitIdentifier.h"
#include "TransactionIdentifier.h"
#include <unordered_map>
using namespace modbus;

HARNESS(e02_unit) {
  uint8_t a = sx::any<uint8_t>("a"), b;
  b = sx::any<uint8_t>("b");
  UnitIdentifier x(a), y(b), z(x), w(b);
  w = x;
  CHECK(x.get_value() == a && y.get_value() == b && z.get_value() == a && w.get_value() == a, "an identifier does not give back its value");
  CHECK((x == y) == (a == b), "equality differs from that of the values");
  CHECK((x != y) == (a != b), "inequality differs from that of the values");
  CHECK((y == x) == (a == b) && (y != x) == (a != b), "comparison is not symmetric");
  CHECK(x == z && !(x != z) && w == x, "a copy differs from its original");
  size_t h = std::hash<UnitIdentifier>()(x), g = std::hash<UnitIdentifier>()(y);
  CHECK((a != b) | (h == g), "equal identifiers have different hashes");
  CHECK(std::hash<UnitIdentifier>()(x) == h, "the hash of an identifier changes");
  CHECK(UnitIdentifier::default_unit_identifier().get_value() == 0xFF, "the default unit identifier is not 0xFF");
  if (a != b) COVER("different");
  symx_observe("equal", x == y);
  EXPECT("different");
}
// identifiers serve as keys
HARNESS(e02_map) {
  std::unordered_map<UnitIdentifier, int> m;
  uint8_t k[3];
  int last[3];
  for (int i = 0; i < 3; i++) {
    k[i] = sx::any<uint8_t>("k");
    m[UnitIdentifier(k[i])] = i;
  }
  for (int i = 0; i < 3; i++) {
    last[i] = i;
    for (int j = i + 1; j < 3; j++) if (k[j] == k[i]) last[i] = j;
    auto it = m.find(UnitIdentifier(k[i]));
    CHECK(it != m.end() && it->second == last[i] && it->first.get_value() == k[i], "an identifier used as key is not found");
  }
  uint8_t q = sx::any<uint8_t>("q");
  ASSUME(q != k[0] && q != k[1] && q != k[2]);
  CHECK(m.find(UnitIdentifier(q)) == m.end(), "an identifier never used as key is found");
  COVER("looked up");
  EXPECT("looked up");
}
HARNESS(e02_transaction) {
  uint16_t a = sx::any<uint16_t>("a"), b;
  b = sx::any<uint16_t>("b");
  TransactionIdentifier x(a), y(b), z(x);
  CHECK(x.get_value() == a && y.get_value() == b && z.get_value() == a, "an identifier does not give back its value");
  CHECK((x == y) == (a == b), "equality differs from that of the values");
  CHECK((x != y) == (a != b), "inequality differs from that of the values");
  CHECK(x == z && !(x != z), "a copy differs from its original");
  uint16_t n = (uint16_t)(a + 1);
  TransactionIdentifier &r = ++x;
  CHECK(&r == &x && x.get_value() == n, "prefix increment does not yield the next value");
  TransactionIdentifier o = z++;
  CHECK(o.get_value() == a && z.get_value() == n, "postfix increment does not yield the old value");
  CHECK(x == z && x != o && !(x == o), "an identifier equals its successor");
  ++(++z);
  CHECK(z.get_value() == (uint16_t)(a + 3), "repeated increments do not add up");
  CHECK(y.get_value() == b, "another identifier changed");
  if (a == 0xFFFF) COVER("wraps");
  symx_observe("equal", o == y);
  EXPECT("wraps");
}
