// E01: an expected result is either its value or its error, and stays so when copied.
#include "symx.h"
#include "modbus/Expected.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include <memory>
#include <new>
#include <string>
#include <vector>
using namespace modbus;

static int g_live;
// knows how many of it exist and whether it is used outside its lifetime
struct Value {
  static const uint32_t GONE = 0xA5A5A5A5;
  uint32_t v;
  const Value *self;
  explicit Value(uint32_t x) : v(x), self(this) { g_live++; }
  Value(const Value &o) : v(o.v), self(this) { CHECK(o.self == &o, "a value is copied that does not exist"); g_live++; }
  Value(Value &&o) : v(o.v), self(this) { CHECK(o.self == &o, "a value is moved that does not exist"); o.v = GONE; g_live++; }
  ~Value() { CHECK(self == this, "a value is destroyed twice or without having been constructed"); self = nullptr; g_live--; }
  Value &operator=(const Value &) = default;
};
static int g_errors; // live error objects
struct Base {
  uint32_t v;
  explicit Base(uint32_t x) : v(x) { g_errors++; }
  Base(const Base &o) : v(o.v) { g_errors++; }
  virtual ~Base() { g_errors--; }
};
struct Derived : Base { uint32_t w; explicit Derived(uint32_t x) : Base(x), w(~x) {} };
struct Other { uint32_t v; };
struct Leaf : Derived { explicit Leaf(uint32_t x) : Derived(x) {} };

typedef Expected<Value> Exp;
// what a slot must contain
struct Model { int kind = 0; uint32_t v = 0; bool moved = false; }; // 0 none, 1 value, 2 Base, 3 Derived, 4 Leaf, 5 Other, 6 int
alignas(Exp) static unsigned char mem[3][sizeof(Exp)];
static Model model[3];
static Exp &at(size_t i) { return *reinterpret_cast<Exp *>(mem[i]); }

static void make(size_t i, int kind, uint32_t v, int how) {
  void *p = mem[i];
  switch (kind) {
  case 1:
    if (how == 0) { Value x(v); new (p) Exp(x); CHECK(x.v == v, "storing a copy changed the original"); }
    else new (p) Exp(Value(v));
    break;
  case 2: how == 0 ? new (p) Exp(Exp::from_exception(Base(v))) : new (p) Exp(Exp::from_exception(std::make_exception_ptr(Base(v)))); break;
  case 3: how == 0 ? new (p) Exp(Exp::from_exception(Derived(v))) : new (p) Exp(Exp::from_exception(std::make_exception_ptr(Derived(v)))); break;
  case 4: how == 0 ? new (p) Exp(Exp::from_exception(Leaf(v))) : new (p) Exp(Exp::from_exception(std::make_exception_ptr(Leaf(v)))); break;
  case 5: how == 0 ? new (p) Exp(Exp::from_exception(Other{v})) : new (p) Exp(Exp::from_exception(std::make_exception_ptr(Other{v}))); break;
  case 6: how == 0 ? new (p) Exp(Exp::from_exception((int)v)) : new (p) Exp(Exp::from_exception(std::make_exception_ptr((int)v))); break;
  }
  model[i].kind = kind; model[i].v = v; model[i].moved = false;
}
template <class E> static uint32_t val(const E &e) { return e.v; }
template <> uint32_t val<int>(const int &e) { return (uint32_t)e; }
template <class E> static void error(const Exp &e, bool is, uint32_t v) {
  CHECK(e.has_exception<E>() == is, "has_exception answers wrongly for a type");
  bool threw = false;
  uint32_t got = 0;
  try { got = val(e.get_exception<E>()); }
  catch (const std::invalid_argument &) { threw = true; }
  CHECK(threw != is, "get_exception of a type succeeds or fails wrongly");
  if (is) CHECK(got == v, "get_exception returns another error");
}
static void check(size_t i) {
  const Model &m = model[i];
  if (!m.kind || (m.moved && m.kind != 1)) return; // nothing is promised about an error that was moved away
  const Exp &e = at(i);
  CHECK(e.is_valid() == (m.kind == 1), "is_valid answers wrongly");
  if (m.kind == 1) {
    if (!m.moved) {
      CHECK(e.get().v == m.v, "the value differs from the one stored");
      CHECK(at(i).get().v == m.v && &at(i).get() == &e.get(), "the two forms of get disagree");
    }
    bool threw = false;
    try { (void)e.get_exception(); } catch (const std::invalid_argument &) { threw = true; }
    CHECK(threw, "a value gives an error when asked for one");
    CHECK(!e.has_exception<std::exception>(), "a value claims to hold an error");
  } else {
    int seen = 0;
    uint32_t got = 0;
    bool cst = (i & 1) != 0;
    try { cst ? (void)e.get() : (void)at(i).get(); seen = 1; }
    catch (const Leaf &x) { seen = 4; got = x.v; }
    catch (const Derived &x) { seen = 3; got = x.v; }
    catch (const Base &x) { seen = 2; got = x.v; }
    catch (const Other &x) { seen = 5; got = x.v; }
    catch (int x) { seen = 6; got = (uint32_t)x; }
    catch (...) { seen = 7; }
    CHECK(seen == m.kind && got == m.v, "demanding the value of an error does not throw that error");
    std::exception_ptr p = e.get_exception();
    CHECK((bool)p, "an error is null");
    seen = 0;
    try { std::rethrow_exception(p); }
    catch (const Leaf &x) { seen = 4; got = x.v; }
    catch (const Derived &x) { seen = 3; got = x.v; }
    catch (const Base &x) { seen = 2; got = x.v; }
    catch (const Other &x) { seen = 5; got = x.v; }
    catch (int x) { seen = 6; got = (uint32_t)x; }
    CHECK(seen == m.kind && got == m.v, "get_exception returns another error");
  }
  error<Base>(e, m.kind == 2 || m.kind == 3 || m.kind == 4, m.v);
  error<Derived>(e, m.kind == 3 || m.kind == 4, m.v);
  error<Leaf>(e, m.kind == 4, m.v);
  error<Other>(e, m.kind == 5, m.v);
  error<int>(e, m.kind == 6, m.v);
}
static int live() { int n = 0; for (auto &m : model) n += m.kind == 1; return n; }
static void drop(size_t i) {
  if (!model[i].kind) return;
  at(i).~Exp();
  model[i].kind = 0;
}
static void start() { g_live = g_errors = 0; for (auto &m : model) m = Model(); }
static void finish() {
  for (size_t i = 0; i < 3; i++) drop(i);
  CHECK(g_live == 0, "values are left over or destroyed twice");
  CHECK(g_errors == 0, "errors are left over or destroyed twice");
}
// any history of constructions, copies, moves and destructions of up to three objects
HARNESS(e01_history) {
  start();
  size_t n = (size_t)symx_param("ops", 3);
  int kind = 1 + (int)sx::pick("kind", 6);
  int how = (int)sx::pick("how", 2);
  make(0, kind, sx::any<uint32_t>("value"), how);
  check(0);
  for (size_t k = 0; k < n; k++) {
    unsigned op = sx::pick("op", 4);
    size_t from = 0, to = 0; // copies and new objects go to the first free place
    if (op == 0 || op >= 2) { from = sx::pick("from", 3); ASSUME(model[from].kind != 0); }
    if (op >= 1) { while (to < 3 && model[to].kind) to++; ASSUME(to < 3); }
    if (op >= 2) ASSUME(!model[from].moved || model[from].kind == 1);
    if (op == 0) drop(from);
    else if (op == 1) { static const int K[] = {1, 3, 6}; int kd = K[sx::pick("kind", 3)]; make(to, kd, sx::any<uint32_t>("value"), 0); }
    else if (op == 2) {
      new (mem[to]) Exp(static_cast<const Exp &>(at(from)));
      model[to] = model[from];
    } else {
      new (mem[to]) Exp(std::move(at(from)));
      model[to] = model[from];
      model[from].moved = true;
      COVER("moved");
    }
    for (size_t i = 0; i < 3; i++) check(i);
    CHECK(g_live == live(), "a value exists more or less often than it is held");
  }
  finish();
  COVER("done");
  symx_observe("kinds", (uint64_t)(model[0].kind + model[1].kind));
  EXPECT("moved");
  EXPECT("done");
}
// errors are never stored as one of their bases
HARNESS(e01_slicing) {
  start();
  uint32_t v = sx::any<uint32_t>("value");
  {
    Derived d(v);
    const Base &b = d;
    bool refused = false;
    try { Exp e = Exp::from_exception(b); CHECK(e.has_exception<Derived>(), "an error was stored as its base"); }
    catch (const std::invalid_argument &) { refused = true; }
    if (refused) COVER("refused");
  }
  finish();
  EXPECT("refused");
}
// the library's own errors, and values of several types
static std::string message(const IException &e) { return e.get_message(); }
template <class E> static void lib(const E &x, int kind) {
  Expected<std::vector<uint16_t>> e = Expected<std::vector<uint16_t>>::from_exception(x);
  Expected<std::vector<uint16_t>> f(e), g(std::move(e));
  for (auto *p : {&f, &g}) {
    CHECK(!p->is_valid(), "an error is valid");
    CHECK(p->template has_exception<IException>(), "a library error is not an IException");
    CHECK(p->template has_exception<ModbusException>() == (kind == 0), "wrong kind of error");
    CHECK(p->template has_exception<TimeoutException>() == (kind == 1), "wrong kind of error");
    CHECK(p->template has_exception<ConnectionException>() == (kind == 2), "wrong kind of error");
    CHECK(p->template has_exception<MalformedModbusRequestException>() == (kind == 3), "wrong kind of error");
    CHECK(p->template has_exception<MalformedModbusResponseException>() == (kind == 4), "wrong kind of error");
    CHECK(message(p->template get_exception<E>()) == message(x), "the error's message changed");
    CHECK(message(p->template get_exception<IException>()) == message(x), "the error's message changed");
  }
}
HARNESS(e01_library) {
  unsigned k = sx::pick("kind", 6);
  char msg[20];
  size_t n = sx::pick("len", 20);
  symx_make_symbolic(msg, 20, "msg");
  std::string s(msg, n);
  if (k == 0) {
    unsigned t = sx::pick("type", 12);
    ModbusException x((ExceptionType)t);
    lib(x, 0);
    auto e = Expected<bool>::from_exception(x);
    CHECK((unsigned)e.get_exception<ModbusException>().get_exception_type() == t, "the exception type changed");
  } else if (k == 1) lib(TimeoutException(), 1);
  else if (k == 2) lib(ConnectionException(s), 2);
  else if (k == 3) lib(MalformedModbusRequestException(s), 3);
  else if (k == 4) lib(MalformedModbusResponseException(s), 4);
  else {
    Expected<std::string> e(s);
    Expected<std::string> f(e), g(std::move(e));
    CHECK(f.get() == s && g.get() == s && f.is_valid() && g.is_valid(), "a string value changed");
    f.get() += "x";
    CHECK(f.get() == s + "x" && g.get() == s, "a copy is not independent of its original");
    bool b = sx::any_bool("flag");
    Expected<bool> h(b);
    Expected<bool> i(h);
    CHECK(i.get() == b && i.is_valid() && !i.has_exception<IException>(), "a flag changed");
    std::vector<uint16_t> v(n);
    for (auto &x : v) x = sx::any<uint16_t>("x");
    Expected<std::vector<uint16_t>> j(v), l(j), o(std::move(j));
    CHECK(l.get() == v && o.get() == v, "a vector changed");
    COVER("values");
  }
  COVER("done");
  EXPECT("values");
  EXPECT("done");
}
