// E05: endpoints keep the host and port they were given.
#include "symx.h"
#include "modbus/Ipv4Endpoint.h"
#include <cstring>
#include <string>
using namespace modbus;

struct Host { char c[24]; size_t n; };
static const unsigned char L[] = {0, 1, 2, 9, 14, 15, 16, 17, 20};
static void any_host(Host &h, long len) {
  h.n = len >= 0 ? L[len] : symx_param("all", 0) ? sx::pick("len", 24) : L[sx::pick("len", 9)];
  symx_make_symbolic(h.c, 24, "host"); // any character, including zero
}
static bool is(const Ipv4Endpoint &e, const Host &h, uint32_t port) {
  const std::string &s = e.get_hostname();
  if (s.size() != h.n) return false;
  unsigned d = 0;
  for (size_t i = 0; i < h.n; i++) d |= (unsigned char)(s[i] ^ h.c[i]);
  return (d == 0) & (e.get_port() == port);
}
static bool same(const Host &a, const Host &b) {
  if (a.n != b.n) return false;
  unsigned d = 0;
  for (size_t i = 0; i < a.n; i++) d |= (unsigned char)(a.c[i] ^ b.c[i]);
  return d == 0;
}
HARNESS(e05_endpoints) {
  static Host a, b;
  any_host(a, symx_param("len", -1));
  any_host(b, symx_param("short", 0) ? (long)sx::pick("len", 3) : -1);
  uint32_t p = sx::any<uint32_t>("port"), q;
  q = sx::any<uint32_t>("port2");
  std::string given(a.c, a.n);
  Ipv4Endpoint x(given, p), y(std::string(b.c, b.n), q);
  given.assign(30, '!'); // the endpoint does not depend on the string it was made from
  CHECK(is(x, a, p) && is(y, b, q), "an endpoint does not report what it was given");
  bool eq = same(a, b) & (p == q);
  CHECK((x == y) == eq && (y == x) == eq, "equality of endpoints is wrong");
  CHECK((x != y) == !eq && (y != x) == !eq, "inequality of endpoints is wrong");
  if (same(a, b) && p == q) COVER("equal");
  if (same(a, b) && p != q) COVER("other port");
  if (a.n == b.n && !same(a, b) && p == q) COVER("other host");
  symx_observe("eq", x == y);
  EXPECT("other port");
  EXPECT("equal");
  if (symx_param("len", -1) != 0) EXPECT("other host");
}
// through any history of copies, assignments and moves
HARNESS(e05_history) {
  static Host h[3];
  uint32_t p[3];
  for (int i = 0; i < 2; i++) {
    h[i].n = i ? 17 : 3;
    symx_make_symbolic(h[i].c, 24, "host");
    p[i] = sx::any<uint32_t>("port");
  }
  h[2] = h[0]; p[2] = p[0];
  {
    Ipv4Endpoint e[3] = {Ipv4Endpoint(std::string(h[0].c, h[0].n), p[0]), Ipv4Endpoint(std::string(h[1].c, h[1].n), p[1]), Ipv4Endpoint(std::string(h[2].c, h[2].n), p[2])};
    int who[3] = {0, 1, 2}; // -1: moved from
    size_t n = (size_t)symx_param("ops", 4), objs = (size_t)symx_param("objects", 2);
    for (size_t k = 0; k < n; k++) {
      unsigned op = sx::pick("op", 4), to = sx::pick("to", (unsigned)objs), from = sx::pick("from", (unsigned)objs);
      if (who[from] < 0) continue;
      if (op == 0) { e[to] = e[from]; who[to] = who[from]; }
      else if (op == 1) { if (to == from) continue; e[to] = std::move(e[from]); who[to] = who[from]; who[from] = -1; }
      else if (op == 2) { Ipv4Endpoint t(e[from]); e[to] = t; who[to] = who[from]; }
      else { if (to == from) continue; Ipv4Endpoint t(std::move(e[from])); int w = who[from]; who[from] = -1; e[to] = std::move(t); who[to] = w; }
      for (int i = 0; i < 3; i++) if (who[i] >= 0) CHECK(is(e[i], h[who[i]], p[who[i]]), "an endpoint lost what it was given");
    }
    if (who[0] == 1) COVER("replaced");
  }
  EXPECT("replaced");
}

// names of any length, equal up to one character
HARNESS(e05_long) {
  static const unsigned N[] = {32, 63, 64, 127, 128, 253, 255, 256, 257, 300, 1000};
  static char a[1000], b[1000];
  unsigned n = N[sx::pick("len", 11)];
  symx_make_symbolic(a, n, "host");
  for (unsigned i = 0; i < n; i++) b[i] = a[i];
  unsigned at = sx::pick("where", 4);
  at = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : n > 253 ? 253 : 31;
  b[at] = sx::any<char>("other character");
  uint32_t p = sx::any<uint32_t>("port");
  std::string given(a, n);
  Ipv4Endpoint x(given, p), y(std::string(b, n), p), z(std::string(a, n - 1), p);
  given.assign(2000, '!');
  const std::string &s = x.get_hostname(), &t = y.get_hostname();
  unsigned d = s.size() != n || t.size() != n;
  CHECK(!d, "an endpoint does not report what it was given");
  for (unsigned i = 0; i < n; i++) d |= (unsigned char)(s[i] ^ a[i]) | (unsigned char)(t[i] ^ b[i]);
  CHECK((d == 0) & (x.get_port() == p), "an endpoint does not report what it was given");
  bool eq = a[at] == b[at];
  CHECK((x == y) == eq && (y == x) == eq, "equality of endpoints is wrong");
  CHECK((x != y) == !eq && (y != x) == !eq, "inequality of endpoints is wrong");
  CHECK(!(x == z) && z != x, "equality of endpoints is wrong");
  Ipv4Endpoint c(x), m(std::move(z));
  c = y;
  CHECK(c == y && m.get_hostname().size() == n - 1, "a copied endpoint differs");
  if (eq) COVER("equal");
  else COVER("other host");
  EXPECT("equal");
  EXPECT("other host");
}
