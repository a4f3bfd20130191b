// E03: identifiers are printed in a fixed-width hexadecimal form.
#include "symx.h"
#include "modbus/UnitIdentifier.h"
#include "TransactionIdentifier.h"
#include <ios>
#include <iomanip>
#include <sstream>
#include <string>
using namespace modbus;

static char digit(unsigned v) { return (char)(v + (v < 10 ? '0' : 'A' - 10)); }
// the stream may have been used and configured in any way before
static void any_state(std::ostream &s) {
  static const std::ios_base::fmtflags B[] = {std::ios_base::dec, std::ios_base::hex, std::ios_base::oct};
  static const std::ios_base::fmtflags A[] = {std::ios_base::fmtflags(), std::ios_base::left, std::ios_base::right, std::ios_base::internal};
  static const char F[] = {' ', '0', '*'};
  s.setf(B[sx::pick("base", 3)], std::ios_base::basefield);
  s.setf(A[sx::pick("adjust", 4)], std::ios_base::adjustfield);
  if (sx::pick("upper", 2)) s.setf(std::ios_base::uppercase);
  if (sx::pick("showbase", 2)) s.setf(std::ios_base::showbase);
  s.fill(F[sx::pick("fill", 3)]);
}
static void unit(const std::string &s, size_t at, uint8_t v) {
  CHECK(s[at] == '0' && s[at + 1] == 'x', "a printed identifier does not start with 0x");
  CHECK((s[at + 2] == digit(v >> 4)) & (s[at + 3] == digit(v & 15)), "a unit identifier is not printed as two uppercase hexadecimal digits");
}
static void tid(const std::string &s, size_t at, uint16_t v) {
  CHECK(s[at] == '0' && s[at + 1] == 'x', "a printed identifier does not start with 0x");
  CHECK((s[at + 2] == digit(v >> 12)) & (s[at + 3] == digit((v >> 8) & 15)) & (s[at + 4] == digit((v >> 4) & 15)) & (s[at + 5] == digit(v & 15)), "a transaction identifier is not printed as four uppercase hexadecimal digits");
}
HARNESS(e03_state) {
  uint8_t u = sx::any<uint8_t>("unit");
  uint16_t t = sx::any<uint16_t>("tid");
  std::ostringstream o;
  any_state(o);
  const auto flags = o.flags();
  const char fill = o.fill();
  if (sx::pick("which", 2)) {
    o << UnitIdentifier(u);
    std::string s = o.str();
    CHECK(s.size() == 4, "a unit identifier is not printed as 0x and two digits");
    unit(s, 0, u);
    COVER("unit");
  } else {
    o << TransactionIdentifier(t);
    std::string s = o.str();
    CHECK(s.size() == 6, "a transaction identifier is not printed as 0x and four digits");
    tid(s, 0, t);
    COVER("tid");
  }
  CHECK(o.flags() == flags && o.fill() == fill, "printing an identifier changes how the stream prints what follows");
  EXPECT("unit");
  EXPECT("tid");
}
// one after the other on one stream, and the stream is returned
HARNESS(e03_sequence) {
  uint8_t u = sx::any<uint8_t>("unit"), v;
  v = sx::any<uint8_t>("unit2");
  uint16_t t = sx::any<uint16_t>("tid"), w;
  w = sx::any<uint16_t>("tid2");
  std::ostringstream o;
  std::ostream &r = o << TransactionIdentifier(t) << UnitIdentifier(u) << UnitIdentifier(v) << TransactionIdentifier(w);
  CHECK(&r == &o, "printing returns another stream");
  std::string s = o.str();
  CHECK(s.size() == 20, "identifiers printed in sequence have the wrong width");
  tid(s, 0, t); unit(s, 6, u); unit(s, 10, v); tid(s, 14, w);
  // distinct identifiers print differently
  CHECK((u == v) | (s.substr(6, 4) != s.substr(10, 4)), "distinct unit identifiers print the same");
  CHECK((t == w) | (s.substr(0, 6) != s.substr(14, 6)), "distinct transaction identifiers print the same");
  COVER("printed");
  EXPECT("printed");
}
