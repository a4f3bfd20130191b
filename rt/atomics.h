// Included first into every natively compiled file: sequentially consistent atomic accesses are scheduling points, as they are
// for the engine.
#pragma once
extern "C" void symx_atomic(void);
static inline __attribute__((no_sanitize("thread"))) void symx_atomic_order(int o) { if (o == 5) symx_atomic(); }
// Reference counts order no more than they have to (libstdc++ happens to use stronger operations): taking a reference orders
// nothing, releasing one is a release, releasing the last one an acquire as well.
template <class T> static inline T symx_release(T *p) { T r = __atomic_fetch_add(p, -1, 3); if (r == 1) (void)__atomic_load_n(p, 2); return r; }
template <class T> static inline T symx_release(volatile T *p) { return symx_release(const_cast<T *>(p)); }
template <class T> static inline T symx_last(T *p) { T r = __atomic_load_n(p, 0); if ((unsigned long long)r == (1ull << 32 | 1)) { (void)__atomic_load_n(p, 2); (void)__atomic_load_n((int *)p + 1, 2); } return r; }
#define __atomic_load_n(p, o) (symx_atomic_order(o), (o) == 2 && sizeof *(p) == 8 ? symx_last(p) : __atomic_load_n(p, o))
#define __atomic_load(p, r, o) (symx_atomic_order(o), __atomic_load(p, r, o))
#define __atomic_store_n(p, v, o) (symx_atomic_order(o), __atomic_store_n(p, v, o))
#define __atomic_store(p, v, o) (symx_atomic_order(o), __atomic_store(p, v, o))
#define __atomic_exchange_n(p, v, o) (symx_atomic_order(o), __atomic_exchange_n(p, v, o))
#define __atomic_exchange(p, v, r, o) (symx_atomic_order(o), __atomic_exchange(p, v, r, o))
#define __atomic_compare_exchange_n(p, e, v, w, o, f) (symx_atomic_order(o), (o) == 4 && (v) == *(e) + 1 ? __atomic_compare_exchange_n(p, e, v, w, 0, 0) : __atomic_compare_exchange_n(p, e, v, w, o, f))
#define __atomic_compare_exchange(p, e, v, w, o, f) (symx_atomic_order(o), __atomic_compare_exchange(p, e, v, w, o, f))
#define __atomic_fetch_add(p, v, o) (symx_atomic_order(o), (o) == 4 && (v) == 1 ? __atomic_fetch_add(p, v, 0) : (o) == 4 && (v) == -1 ? symx_release(p) : __atomic_fetch_add(p, v, o))
#define __atomic_fetch_sub(p, v, o) (symx_atomic_order(o), __atomic_fetch_sub(p, v, o))
#define __atomic_fetch_and(p, v, o) (symx_atomic_order(o), __atomic_fetch_and(p, v, o))
#define __atomic_fetch_or(p, v, o) (symx_atomic_order(o), __atomic_fetch_or(p, v, o))
#define __atomic_fetch_xor(p, v, o) (symx_atomic_order(o), __atomic_fetch_xor(p, v, o))
#define __atomic_add_fetch(p, v, o) (symx_atomic_order(o), __atomic_add_fetch(p, v, o))
#define __atomic_sub_fetch(p, v, o) (symx_atomic_order(o), __atomic_sub_fetch(p, v, o))
#define __atomic_test_and_set(p, o) (symx_atomic_order(o), __atomic_test_and_set(p, o))
#define __atomic_clear(p, o) (symx_atomic_order(o), __atomic_clear(p, o))
