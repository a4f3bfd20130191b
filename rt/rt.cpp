// C++ run-time library for symbolic runs (replaces libstdc++.so / libsupc++ parts that are not header-only).
// Compiled to bitcode and linked with the harness and the sources under test.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <list>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <chrono>
#include <map>
#include <mutex>
#include <thread>
#include <unordered_map>
#include "symx.h"
#include "containers.h"

extern "C" {
void symx_throw(void *obj);
void *symx_dyncast(const void *p, const void *src, const void *dst);
char __libc_single_threaded = 0;
void *__dso_handle = nullptr;
}

// ------------------------------------------------------------------ exceptions
namespace {
struct Hdr {
  const std::type_info *ti;
  void (*dtor)(void *);
  uint64_t rc;
  void *adj;
  uint64_t pad[4];
};
static_assert(sizeof(Hdr) == 64, "");
struct Node { void *obj; void *adj; Node *next; };
constexpr int MT = 8;
Node *g_caught[MT];
unsigned g_uncaught[MT];
Hdr *hdr(void *o) { return (Hdr *)((char *)o - sizeof(Hdr)); }
void decref(void *o) {
  Hdr *h = hdr(o);
  if (--h->rc == 0) {
    if (h->dtor) h->dtor(o);
    free(h);
  }
}
} // namespace

extern "C" {
void *__cxa_allocate_exception(size_t n) {
  Hdr *h = (Hdr *)malloc(sizeof(Hdr) + n);
  h->ti = nullptr; h->dtor = nullptr; h->rc = 0; h->adj = nullptr;
  return h + 1;
}
void __cxa_free_exception(void *o) { free(hdr(o)); }
void *rt_init_primary(void *o, std::type_info *ti, void (*dtor)(void *)) asm("__cxa_init_primary_exception");
void *rt_init_primary(void *o, std::type_info *ti, void (*dtor)(void *)) {
  Hdr *h = hdr(o);
  h->ti = ti; h->dtor = dtor; h->rc = 0;
  return h;
}
[[noreturn]] void __cxa_throw(void *o, std::type_info *ti, void (*dtor)(void *)) {
  Hdr *h = hdr(o);
  h->ti = ti; h->dtor = dtor; h->rc = 1; h->adj = o;
  g_uncaught[symx_thread_id()]++;
  symx_throw(o);
  __builtin_unreachable();
}
void *__cxa_begin_catch(void *o) noexcept {
  unsigned t = symx_thread_id();
  Node *n = (Node *)malloc(sizeof(Node));
  n->obj = o; n->adj = hdr(o)->adj; n->next = g_caught[t];
  g_caught[t] = n;
  g_uncaught[t]--;
  return n->adj;
}
void *__cxa_get_exception_ptr(void *o) noexcept { return hdr(o)->adj; }
void __cxa_end_catch() {
  unsigned t = symx_thread_id();
  Node *n = g_caught[t];
  g_caught[t] = n->next;
  void *o = n->obj;
  free(n);
  decref(o);
}
[[noreturn]] void __cxa_rethrow() {
  unsigned t = symx_thread_id();
  Node *n = g_caught[t];
  if (!n) { symx_fail("terminate", "rethrow without a current exception"); __builtin_unreachable(); }
  hdr(n->obj)->rc++;
  hdr(n->obj)->adj = n->obj;
  g_uncaught[t]++;
  symx_throw(n->obj);
  __builtin_unreachable();
}
std::type_info *__cxa_current_exception_type() {
  Node *n = g_caught[symx_thread_id()];
  return n ? const_cast<std::type_info *>(hdr(n->obj)->ti) : nullptr;
}
int __gxx_personality_v0(...);
void __cxa_pure_virtual() { symx_fail("abort", "pure virtual function called"); __builtin_unreachable(); }
void __cxa_deleted_virtual() { symx_fail("abort", "deleted virtual function called"); __builtin_unreachable(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void *__dynamic_cast(const void *p, const void *src, const void *dst, ptrdiff_t) { return symx_dyncast(p, src, dst); }
int __cxa_guard_acquire(uint64_t *g) {
  char *c = (char *)g;
  return c[0] == 0;
}
void __cxa_guard_release(uint64_t *g) { ((char *)g)[0] = 1; }
void __cxa_guard_abort(uint64_t *) {}
}

namespace std {
void terminate() noexcept { symx_fail("terminate", "std::terminate called (exception escaped a noexcept function or handler)"); __builtin_unreachable(); }
int uncaught_exceptions() noexcept { return (int)g_uncaught[symx_thread_id()]; }
bool uncaught_exception() noexcept { return g_uncaught[symx_thread_id()] != 0; }
void __exception_ptr_use();

namespace __exception_ptr {
exception_ptr::exception_ptr(void *e) noexcept : _M_exception_object(e) { _M_addref(); }
#if !_GLIBCXX_EH_PTR_INLINE_DEFINED
#endif
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) hdr(_M_exception_object)->rc++; }
void exception_ptr::_M_release() noexcept {
  if (_M_exception_object) { decref(_M_exception_object); _M_exception_object = nullptr; }
}
void *exception_ptr::_M_get() const noexcept { return _M_exception_object; }
} // namespace __exception_ptr
exception_ptr current_exception() noexcept {
  Node *n = g_caught[symx_thread_id()];
  if (!n) return exception_ptr();
  struct P { void *o; };
  exception_ptr r;
  *(void **)&r = n->obj;
  hdr(n->obj)->rc++;
  return r;
}
void rethrow_exception(exception_ptr p) {
  void *o = *(void **)&p;
  if (!o) { symx_fail("terminate", "rethrow_exception of a null exception_ptr"); __builtin_unreachable(); }
  hdr(o)->rc++;
  hdr(o)->adj = o;
  g_uncaught[symx_thread_id()]++;
  p.~exception_ptr();
  *(void **)&p = nullptr;
  symx_throw(o);
  __builtin_unreachable();
}

exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}

// __cow_string: a heap copy
static char *dupstr(const char *s, size_t n) { char *p = (char *)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dupstr("", 0)) {}
__cow_string::__cow_string(const std::string &s) : _M_p(dupstr(s.data(), s.size())) {}
__cow_string::__cow_string(const char *s, size_t n) : _M_p(dupstr(s, n)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dupstr(o._M_p, strlen(o._M_p))) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { free((void *)_M_p); _M_p = dupstr(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) { o._M_p = dupstr("", 0); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { const char *t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

logic_error::logic_error(const string &s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &) noexcept = default;
logic_error &logic_error::operator=(const logic_error &) noexcept = default;
logic_error::logic_error(logic_error &&) noexcept = default;
logic_error &logic_error::operator=(logic_error &&) noexcept = default;
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return *(const char *const *)&_M_msg; }
runtime_error::runtime_error(const string &s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &) noexcept = default;
runtime_error &runtime_error::operator=(const runtime_error &) noexcept = default;
runtime_error::runtime_error(runtime_error &&) noexcept = default;
runtime_error &runtime_error::operator=(runtime_error &&) noexcept = default;
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return *(const char *const *)&_M_msg; }
#define LE(X) X::X(const string &s) : logic_error(s) {} X::X(const char *s) : logic_error(s) {} X::~X() noexcept {}
#define RE(X) X::X(const string &s) : runtime_error(s) {} X::X(const char *s) : runtime_error(s) {} X::~X() noexcept {}
LE(domain_error) LE(invalid_argument) LE(length_error) LE(out_of_range)
RE(range_error) RE(overflow_error) RE(underflow_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

// ------------------------------------------------------------------ lists, trees, hashing
namespace __detail {

size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727, 62233, 126271};
  size_t r = 126271;
  for (size_t p : pr) if (p >= n) { r = p; break; }
  _M_next_resize = r;
  return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
  if (n_elt + n_ins > _M_next_resize || n_elt + n_ins > n_bkt) {
    size_t want = n_elt + n_ins;
    if (_M_next_resize == 0 && want < 11) want = 11;
    if (want + 1 > n_bkt) {
      size_t g = n_bkt * 2;
      return {true, _M_next_bkt(want + 1 > g ? want + 1 : g)};
    }
    _M_next_resize = n_bkt;
  }
  return {false, 0};
}
} // namespace __detail

size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
  size_t h = seed;
  for (size_t i = 0; i < n; i++) h = (h << 5) ^ (h >> 3) ^ ((const unsigned char *)p)[i];
  return h;
}


// ------------------------------------------------------------------ error codes
inline namespace _V2 {
error_category::~error_category() {}
error_condition error_category::default_error_condition(int v) const noexcept { return error_condition(v, *this); }
bool error_category::equivalent(int v, const error_condition &c) const noexcept { return default_error_condition(v) == c; }
bool error_category::equivalent(const error_code &e, int v) const noexcept { return *this == e.category() && e.value() == v; }
namespace {
struct rt_category final : error_category {
  const char *name() const noexcept override { return "rt"; }
  string message(int) const override { return string("error"); }
};
}
const error_category &system_category() noexcept { static rt_category c; return c; }
const error_category &generic_category() noexcept { static rt_category c; return c; }
}
// ------------------------------------------------------------------ time, threads
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((int64_t)symx_clock())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration((int64_t)symx_clock())); }
} }
thread::_State::~_State() {}
struct rt_thread_state { virtual ~rt_thread_state() {} virtual void run() {} };
static void thread_main(void *p) {
  auto *st = (rt_thread_state *)p;
  st->run();
  delete st;
}
void thread::_M_start_thread(_State_ptr st, void (*)()) {
  *(uint64_t *)&_M_id = symx_spawn(thread_main, st.release());
}
void thread::join() { symx_join(*(uint64_t *)&_M_id); _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
} // namespace std

extern "C" {
void *rt_memchr(const void *p, int c, size_t n) noexcept asm("memchr");
void *rt_memchr(const void *p, int c, size_t n) noexcept {
  const unsigned char *s = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i);
  return nullptr;
}
int strcmp(const char *a, const char *b) noexcept {
  for (;; a++, b++) { unsigned char x = (unsigned char)*a, y = (unsigned char)*b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int strncmp(const char *a, const char *b, size_t n) noexcept {
  for (; n; a++, b++, n--) { unsigned char x = (unsigned char)*a, y = (unsigned char)*b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
  return 0;
}
char *rt_strchr(const char *s, int c) noexcept asm("strchr");
char *rt_strchr(const char *s, int c) noexcept {
  for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; }
}
size_t strnlen(const char *s, size_t n) noexcept { size_t k = 0; while (k < n && s[k]) k++; return k; }
char *strcpy(char *d, const char *s) noexcept { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) noexcept { char *r = d; while (*d) d++; while ((*d++ = *s++)) {} return r; }
char *rt_strrchr(const char *s, int c) noexcept asm("strrchr");
char *rt_strrchr(const char *s, int c) noexcept { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *rt_strstr(const char *s, const char *t) noexcept asm("strstr");
char *rt_strstr(const char *s, const char *t) noexcept {
  for (;; s++) { size_t i = 0; while (t[i] && s[i] == t[i]) i++; if (!t[i]) return (char *)s; if (!*s) return nullptr; }
}
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) noexcept { return isdigit(c) || isalpha(c); }
int isxdigit(int c) noexcept { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int isprint(int c) noexcept { return c >= 32 && c < 127; }
int ispunct(int c) noexcept { return c > 32 && c < 127 && !isalnum(c); }
int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
int abs(int x) noexcept { return x < 0 ? -x : x; }
long labs(long x) noexcept { return x < 0 ? -x : x; }
long long llabs(long long x) noexcept { return x < 0 ? -x : x; }
div_t div(int a, int b) noexcept { return div_t{a / b, a % b}; }
ldiv_t ldiv(long a, long b) noexcept { return ldiv_t{a / b, a % b}; }
lldiv_t lldiv(long long a, long long b) noexcept { return lldiv_t{a / b, a % b}; }
static int rt_errno;
int *__errno_location() noexcept { return &rt_errno; }
static unsigned long rt_number(const char *s, char **end, int base, bool sign) {
  const char *p = s;
  while (isspace((unsigned char)*p)) p++;
  bool neg = false, over = false, any = false;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0;
  for (;; p++) {
    int c = (unsigned char)*p, d = isdigit(c) ? c - '0' : isalpha(c) ? tolower(c) - 'a' + 10 : 99;
    if (d >= base) break;
    any = true;
    if (v > (~0ul - (unsigned long)d) / (unsigned long)base) over = true;
    v = v * (unsigned long)base + (unsigned long)d;
  }
  if (end) *end = (char *)(any ? p : s);
  unsigned long top = ~0ul;
  if (sign) { top = neg ? 1ul << 63 : ~0ul >> 1; over = over || v > top; }
  if (over) { rt_errno = 34; return top; }
  return neg ? 0 - v : v;
}
long strtol(const char *s, char **e, int b) noexcept { return (long)rt_number(s, e, b, true); }
unsigned long strtoul(const char *s, char **e, int b) noexcept { return rt_number(s, e, b, false); }
long long strtoll(const char *s, char **e, int b) noexcept { return (long long)rt_number(s, e, b, true); }
unsigned long long strtoull(const char *s, char **e, int b) noexcept { return rt_number(s, e, b, false); }
int pthread_once(int *ctl, void (*f)()) noexcept(false) { if (!*ctl) { *ctl = 1; f(); } return 0; }
}
extern "C" void _ZNKSt3_V214error_category10_M_messageEi() { abort(); }
extern "C" void _ZNKSt3_V214error_category10_M_messageB5cxx11Ei() { abort(); } // messages of the other string ABI
