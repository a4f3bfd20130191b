// Interface between harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
void symx_make_symbolic(void *p, size_t n, const char *name);
void symx_assume(bool c);
void symx_assert(bool c, const char *msg);
void symx_fail(const char *kind, const char *msg);
void symx_cover(const char *name);
void symx_expect_cover(const char *name);
void symx_observe(const char *name, uint64_t v);
long symx_param(const char *name, long dflt);
uint64_t symx_concretize(uint64_t v);
uint64_t symx_is_concrete(uint64_t v);
void symx_merge(int mode);
uint64_t symx_is_symbolic_run();
uint64_t symx_thread_id();
uint64_t symx_clock();
uint64_t symx_spawn(void (*f)(void *), void *arg);
void symx_join(uint64_t t);
void symx_yield();
void symx_print(const char *name, uint64_t v);
}

namespace sx {
template <class T> inline T any(const char *name) {
  T v;
  symx_make_symbolic(&v, sizeof v, name);
  return v;
}
inline bool any_bool(const char *name) {
  uint8_t b = any<uint8_t>(name);
  symx_assume(b <= 1);
  return b == 1;
}
// a value in [lo, hi]
template <class T> inline T range(const char *name, T lo, T hi) {
  T v = any<T>(name);
  symx_assume((v >= lo) & (v <= hi));
  return v;
}
// a value in [0, n), one path per value
inline unsigned pick(const char *name, unsigned n) {
  if (n <= 1) return 0;
  uint8_t v = any<uint8_t>(name);
  symx_assume(v < n);
  return (unsigned)symx_concretize(v);
}
} // namespace sx

#define HARNESS(n) extern "C" void n()
#define CHECK(c, msg) symx_assert((bool)(c), msg)
#define ASSUME(c) symx_assume((bool)(c))
#define COVER(n) symx_cover(n)
#define EXPECT(n) symx_expect_cover(n)
