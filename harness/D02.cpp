// D02: range operations are all-or-nothing and never wrap around.
#include "symx.h"
#include "modbus/server/db/BitDatabase.h"
#include "modbus/server/db/RegisterDatabase.h"
#include <vector>
using namespace modbus;

template <class V> static V any_value(const char *n);
template <> bool any_value<bool>(const char *n) { return sx::any_bool(n); }
template <> uint16_t any_value<uint16_t>(const char *n) { return sx::any<uint16_t>(n); }

// a table with a few arbitrary addresses and one range operation on it
template <class V> static void arbitrary() {
  SingleTypeDatabase<V> db;
  size_t n = (size_t)symx_param("n", 3);
  static Address a[8];
  static V v[8];
  symx_merge(0); // one path per order of the addresses
  for (size_t i = 0; i < n; i++) {
    a[i] = sx::any<Address>("addr");
    v[i] = any_value<V>("value");
    for (size_t j = 0; j < i; j++) ASSUME(a[i] != a[j]);
    CHECK(db.add_value(a[i], v[i]), "adding a new address fails");
  }
  symx_merge(1);
  Address start = sx::any<Address>("start");
  size_t count = 1 + sx::pick("count", (unsigned)n + 2);
  bool all = (size_t)start + count <= 65536;
  for (size_t k = 0; k < count; k++) {
    bool has = false;
    for (size_t i = 0; i < n; i++) has = has | (a[i] == (Address)(start + k));
    all = all & has;
  }
  CHECK(db.is_valid_range(start, count) == all, "is_valid_range answers wrongly");
  std::vector<V> in(count), out(count);
  for (size_t k = 0; k < count; k++) { in[k] = any_value<V>("in"); out[k] = in[k]; }
  if (sx::pick("write", 2)) {
    bool r = db.set_values(start, in);
    CHECK(r == all, "a range write succeeds or fails wrongly");
    for (size_t i = 0; i < n; i++) {
      V want = v[i];
      for (size_t k = 0; k < count; k++) want = ((a[i] == (Address)(start + k)) & r) ? (V)in[k] : want;
      V x{};
      CHECK(db.get_value(a[i], x) && x == want, "a range write changed the wrong values, or not all of them");
    }
    if (r) COVER("written"); else COVER("write refused");
  } else {
    bool r = db.get_values(start, out);
    CHECK(r == all && out.size() == count, "a range read succeeds or fails wrongly");
    for (size_t k = 0; k < count; k++) {
      V want = in[k];
      for (size_t i = 0; i < n; i++) want = ((a[i] == (Address)(start + k)) & r) ? v[i] : want;
      CHECK((V)out[k] == want, "a range read returns other values, or a failed one changes the output");
    }
    for (size_t i = 0; i < n; i++) { V x{}; CHECK(db.get_value(a[i], x) && x == v[i], "a range read changed the table"); }
    if (r) COVER("read"); else COVER("read refused");
  }
  Address q = sx::any<Address>("query");
  bool has = false;
  for (size_t i = 0; i < n; i++) has = has | (a[i] == q);
  CHECK(db.is_valid(q) == has, "a range operation created or removed an address");
  symx_observe("all", all);
  EXPECT("written");
  EXPECT("write refused");
  EXPECT("read");
  EXPECT("read refused");
}
HARNESS(d02_bits) { arbitrary<bool>(); }
HARNESS(d02_registers) { arbitrary<uint16_t>(); }

// a block of consecutive addresses, possibly at the end or the beginning of the address space, possibly with a hole
template <class V> static void block() {
  static const uint8_t N[] = {1, 2, 8, 9, 16, 33};
  static const uint16_t BASE[] = {0, 1, 500, 65535};
  SingleTypeDatabase<V> db;
  size_t n = N[sx::pick("n", (unsigned)symx_param("sizes", 6))], bi = sx::pick("base", 4);
  uint16_t base = bi == 3 ? (uint16_t)(65536 - n) : BASE[bi];
  size_t hole = sx::pick("hole", (unsigned)n + 1); // == n: none
  if (symx_param("holes", 0) == 0) ASSUME(hole <= 1 || hole >= n - 1 || hole == n / 2);
  bool wrap = sx::pick("wrap", 2) != 0; // addresses at both ends of the address space
  static V v[64];
  for (size_t i = 0; i < n; i++) {
    v[i] = any_value<V>("value");
    if (i != hole) CHECK(db.add_value((Address)(base + i), v[i]), "adding a new address fails");
  }
  if (wrap && base > 2) { db.add_value(0, V(1)); db.add_value(1, V(1)); }
  uint16_t off = sx::pick("off", 3);
  size_t cc = sx::pick("count", 8);
  static const uint32_t C[] = {0, 0, 0, 0, 0, 65535, 65536, 65537};
  size_t count = cc < 5 ? n + cc : C[cc];
  if (count <= (size_t)off + 1) return;
  if (cc < 5) count -= off + 1;
  bool all = off + count <= n && !(hole >= off && hole < off + count) && (!wrap || true);
  if (off >= n) return;
  CHECK(db.is_valid_range((Address)(base + off), count) == all, "is_valid_range answers wrongly");
  if (count > 100) { COVER("huge"); return; }
  std::vector<V> out(count), in(count);
  bool r = db.get_values((Address)(base + off), out);
  CHECK(r == all, "a range read succeeds or fails wrongly");
  if (r) for (size_t k = 0; k < count; k++) CHECK((V)out[k] == v[off + k], "a range read returns the wrong values");
  for (size_t k = 0; k < count; k++) in[k] = any_value<V>("in");
  r = db.set_values((Address)(base + off), in);
  CHECK(r == all, "a range write succeeds or fails wrongly");
  for (size_t i = 0; i < n; i++) {
    if (i == hole) { CHECK(!db.is_valid((Address)(base + i)), "a range write created an address"); continue; }
    V x{};
    CHECK(db.get_value((Address)(base + i), x), "a range write removed an address");
    V want = r && i >= off && i < off + count ? (V)in[i - off] : v[i];
    CHECK(x == want, "a range write changed the wrong values, or not all of them");
  }
  if (wrap && base > 2) { V x{}; CHECK(db.get_value(0, x) && x == V(1), "a range write wrapped around"); }
  if (r) COVER("transferred"); else COVER("refused");
  symx_observe("all", all);
  EXPECT("huge");
  EXPECT("transferred");
  EXPECT("refused");
}
HARNESS(d02_block_bits) { block<bool>(); }
HARNESS(d02_block_registers) { block<uint16_t>(); }
// long ranges, as long as the largest request and longer: the size is not truncated anywhere on the way
template <class V> static void long_range() {
  static const uint16_t N[] = {255, 256, 257, 2000};
  SingleTypeDatabase<V> db;
  size_t n = N[symx_param("size", 0)];
  static const uint16_t BASE[] = {0, 700};
  uint16_t base = sx::pick("at the end", 2) ? (uint16_t)(65536 - n) : BASE[1];
  size_t hole = sx::pick("hole", 6); // none, the first, the second, in the middle, the 256th from the end or the last
  hole = hole == 0 ? n : hole == 1 ? 0 : hole == 2 ? 1 : hole == 3 ? n / 2 : hole == 4 ? (n > 256 ? n - 256 : 0) : n - 1;
  auto value = [](size_t i) { return (V)(i * 7 + i / 3); };
  for (size_t i = 0; i < n; i++)
    if (i != hole) db.add_value((Address)(base + i), value(i));
  size_t count = n + sx::pick("more", 3) - 1;
  bool all = count <= n && !(hole < count);
  CHECK(db.is_valid_range(base, count) == all, "is_valid_range answers wrongly");
  V x = any_value<V>("in"), y = any_value<V>("out");
  std::vector<V> in(count, x), out(count, y);
  in[count - 1] = (V)!x;
  bool write = sx::pick("write", 2) != 0;
  bool r = write ? db.set_values(base, in) : db.get_values(base, out);
  CHECK(r == all, "a long range operation succeeds or fails wrongly");
  if (!write) for (size_t k = 0; k < count; k++) CHECK((V)out[k] == (r ? value(k) : y), "a long range read returns other values, or a failed one changes the output");
  for (size_t i = 0; i < n; i++) {
    V g{};
    bool has = db.get_value((Address)(base + i), g);
    CHECK(has == (i != hole), "a long range operation created or removed an address");
    if (has) CHECK(g == (write && r && i < count ? (V)in[i] : value(i)), "a long range operation changed the wrong values, or not all of them");
  }
  if (r) COVER("transferred"); else COVER("refused");
  EXPECT("transferred");
  EXPECT("refused");
}
HARNESS(d02_long_bits) { long_range<bool>(); }
HARNESS(d02_long_registers) { long_range<uint16_t>(); }
// the whole address space
HARNESS(d02_full) {
  static RegisterDatabase db;
  for (unsigned i = 0; i < 65536; i++) CHECK(db.add_value((Address)i, (uint16_t)(i * 7)), "adding a new address fails");
  CHECK(!db.is_valid_range(0, 65537) && !db.is_valid_range(1, 65536) && !db.is_valid_range(65535, 2), "a range wraps around");
  CHECK(db.is_valid_range(0, 65536) && db.is_valid_range(65535, 1) && db.is_valid_range(65530, 6), "an existing range is not valid");
  std::vector<uint16_t> w(2, sx::any<uint16_t>("value"));
  CHECK(!db.set_values(65535, w), "a range wraps around");
  uint16_t x = 0;
  CHECK(db.get_value(65535, x) && x == (uint16_t)(65535u * 7), "a failed range write changed a value");
  CHECK(db.get_value(0, x) && x == 0, "a failed range write changed a value");
  CHECK(!db.get_values(65535, w), "a range wraps around");
  COVER("full");
  EXPECT("full");
}
