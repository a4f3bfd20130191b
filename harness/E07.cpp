// E07: every error carries the message it was created with and is caught as what it is.
#include "symx.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include <exception>
#include <string>
using namespace modbus;

static bool eq(const std::string &s, const char *c, size_t n) {
  if (s.size() != n) return false;
  unsigned d = 0;
  for (size_t i = 0; i < n; i++) d |= (unsigned char)(s[i] ^ c[i]);
  return d == 0;
}
template <class E> static const std::string &msg(const E &e) { return static_cast<const IException &>(e).get_message(); }
// which error it is caught as
static int kind(std::exception_ptr p) {
  try { std::rethrow_exception(p); }
  catch (const ModbusException &) { return 0; }
  catch (const TimeoutException &) { return 1; }
  catch (const ConnectionException &) { return 2; }
  catch (const MalformedModbusRequestException &) { return 3; }
  catch (const MalformedModbusResponseException &) { return 4; }
  catch (const IException &) { return 5; }
  catch (...) { return 6; }
}
static int other_order(std::exception_ptr p) {
  try { std::rethrow_exception(p); }
  catch (const MalformedModbusResponseException &) { return 4; }
  catch (const MalformedModbusRequestException &) { return 3; }
  catch (const ConnectionException &) { return 2; }
  catch (const TimeoutException &) { return 1; }
  catch (const ModbusException &) { return 0; }
  catch (...) { return 6; }
}
template <class E> static void life(const E &x, int k, const std::string &m) {
  CHECK(msg(x) == m, "an error's message differs from the one it was created with");
  E c(x);
  CHECK(msg(c) == m && msg(x) == m, "a copy of an error has another message");
  E a(x), b(x);
  a = c;
  CHECK(msg(a) == m, "an assigned error has another message");
  E v(std::move(b));
  CHECK(msg(v) == m, "a moved error has another message");
  auto p = std::make_exception_ptr(x);
  CHECK(kind(p) == k && other_order(p) == k, "an error is caught as another one");
  std::string got;
  try { throw c; } catch (const IException &e) { got = e.get_message(); }
  CHECK(got == m, "a thrown error has another message");
  COVER("error");
}
HARNESS(e07_errors) {
  static const unsigned char L[] = {0, 1, 2, 15, 16, 17, 31};
  char c[32];
  size_t n = symx_param("all", 0) ? sx::pick("len", 32) : L[sx::pick("len", 7)];
  symx_make_symbolic(c, 32, "message");
  std::string s(c, n);
  unsigned k = sx::pick("kind", 3);
  if (k == 0) { ConnectionException e(s); CHECK(eq(msg(e), c, n), "an error's message differs from the one it was created with"); s.assign(40, '!'); life(e, 2, std::string(c, n)); }
  if (k == 1) { MalformedModbusRequestException e(s); CHECK(eq(msg(e), c, n), "an error's message differs from the one it was created with"); s.assign(40, '!'); life(e, 3, std::string(c, n)); }
  if (k == 2) { MalformedModbusResponseException e(s); CHECK(eq(msg(e), c, n), "an error's message differs from the one it was created with"); s.assign(40, '!'); life(e, 4, std::string(c, n)); }
  // two errors do not share their message
  ConnectionException one("first"), two("second");
  one = ConnectionException(std::string(c, n));
  CHECK(msg(two) == "second" && eq(msg(one), c, n), "errors share their message");
  EXPECT("error");
}
HARNESS(e07_fixed) {
  TimeoutException t, u;
  CHECK(!msg(t).empty() && msg(t) == msg(u), "a timeout has no fixed message");
  life(t, 1, msg(u));
  ExceptionType y = (ExceptionType)sx::any<int>("type");
  ModbusException e(y);
  CHECK(msg(e) == ModbusException::get_message(y) && !msg(e).empty(), "a Modbus exception's message is not that of its type");
  life(e, 0, ModbusException::get_message(y));
  EXPECT("error");
}

// messages of any length
HARNESS(e07_long) {
  static const unsigned N[] = {64, 127, 128, 255, 256, 257, 1000};
  static char c[1000];
  unsigned n = N[sx::pick("len", 7)], k = sx::pick("kind", 3);
  symx_make_symbolic(c, n, "message");
  std::string s(c, n);
  if (k == 0) { ConnectionException e(s); s.assign(2000, '!'); CHECK(eq(msg(e), c, n), "an error's message differs from the one it was created with"); life(e, 2, std::string(c, n)); }
  if (k == 1) { MalformedModbusRequestException e(s); s.assign(2000, '!'); CHECK(eq(msg(e), c, n), "an error's message differs from the one it was created with"); life(e, 3, std::string(c, n)); }
  if (k == 2) { MalformedModbusResponseException e(s); s.assign(2000, '!'); CHECK(eq(msg(e), c, n), "an error's message differs from the one it was created with"); life(e, 4, std::string(c, n)); }
  EXPECT("error");
}
