// E04: exception types have standard codes and distinct descriptions.
#include "symx.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include <sstream>
#include <string>
using namespace modbus;

static const ExceptionType TYPES[] = {ExceptionType::IllegalFunction, ExceptionType::IllegalDataAddress, ExceptionType::IllegalDataValue,
  ExceptionType::ServerDeviceFailure, ExceptionType::Acknowledge, ExceptionType::ServerDeviceBusy, ExceptionType::MemoryParityError,
  ExceptionType::GatewayPathUnavailable, ExceptionType::GatewayTargetDeviceFailedToRespond};
static const uint8_t CODES[] = {1, 2, 3, 4, 5, 6, 8, 10, 11}; // Modbus application protocol 1.1b3, section 7
static std::string text(ExceptionType t) {
  std::ostringstream o;
  std::ostream &r = o << t;
  CHECK(&r == &o, "printing returns another stream");
  return o.str();
}
static const std::string &message(const IException &e) { return e.get_message(); }
static bool standard(int v) {
  bool s = false;
  for (uint8_t c : CODES) s = s | (v == c);
  return s;
}
HARNESS(e04_codes) {
  for (int i = 0; i < 9; i++) {
    CHECK((int)TYPES[i] == CODES[i], "an exception type does not have its standard code");
    CHECK(parse_exception_type(CODES[i]) == TYPES[i], "a standard code is parsed as another exception type");
  }
  uint8_t c = sx::any<uint8_t>("code");
  ExceptionType t = parse_exception_type(c);
  CHECK(standard(c) == (t != ExceptionType::Unknown), "a code is wrongly known or unknown");
  CHECK(!standard(c) | ((int)t == c), "a standard code is parsed as another exception type");
  CHECK(!standard((int)ExceptionType::Unknown), "the unknown type has a standard code");
  if (standard(c)) COVER("standard");
  if (!standard(c)) COVER("unknown");
  symx_observe("type", (uint64_t)t);
  EXPECT("standard");
  EXPECT("unknown");
}
HARNESS(e04_descriptions) {
  ExceptionType t = (ExceptionType)sx::any<int>("type"); // any value, inside the enumeration or not
  std::string s = text(t);
  CHECK(!s.empty(), "an exception type has no description");
  if (!standard((int)t)) {
    CHECK(s == text(ExceptionType::Unknown), "a value outside the specification is not described as unknown");
    CHECK(s == "Unknown" || s.find("nknown") != std::string::npos, "a value outside the specification is not described as unknown");
    COVER("unknown");
  } else COVER("known");
  for (int i = 0; i < 9; i++) {
    std::string d = text(TYPES[i]);
    CHECK(((s == d) == (t == TYPES[i])), "two exception types have the same description");
  }
  EXPECT("unknown");
  EXPECT("known");
}
HARNESS(e04_exception) {
  ExceptionType t = (ExceptionType)sx::any<int>("type");
  std::string d = text(t);
  ModbusException e(t);
  CHECK(e.get_exception_type() == t, "an exception reports another type than its own");
  CHECK(message(e).find(d) != std::string::npos, "an exception's message lacks the description of its type");
  std::string m = message(e);
  ModbusException c(e);
  CHECK(c.get_exception_type() == t && message(c) == m, "a copy of an exception differs from it");
  ModbusException a(ExceptionType::Acknowledge);
  a = c;
  CHECK(a.get_exception_type() == t && message(a) == m, "an assigned exception differs from its source");
  bool caught = false;
  try { throw e; }
  catch (const ModbusException &x) { caught = x.get_exception_type() == t && message(x) == m; }
  CHECK(caught, "a thrown exception is caught as another one");
  caught = false;
  try { throw ModbusException(t); }
  catch (const IException &x) { caught = message(x) == m; }
  CHECK(caught, "a thrown exception is caught as another one");
  caught = false;
  try { throw ModbusException(t); }
  catch (const TimeoutException &) { caught = true; }
  catch (const IException &) { }
  CHECK(!caught, "a Modbus exception is caught as a timeout");
  COVER("thrown");
  symx_observe("len", m.size());
  EXPECT("thrown");
}
