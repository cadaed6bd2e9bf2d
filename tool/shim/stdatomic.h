/* Analysis-only shim: gcc lets the generic atomic macros work on plain objects, clang does not.
   The cast gives clang the same view, and every access stays visible as an atomic instruction. */
#ifndef VERIF_STDATOMIC_SHIM
#define VERIF_STDATOMIC_SHIM
#include_next <stdatomic.h>
#undef atomic_init
#undef atomic_load
#undef atomic_store
#undef atomic_exchange
#undef atomic_fetch_add
#undef atomic_fetch_sub
#undef atomic_fetch_or
#undef atomic_fetch_and
#undef atomic_fetch_xor
#undef atomic_compare_exchange_strong
#undef atomic_compare_exchange_weak
#undef atomic_load_explicit
#undef atomic_store_explicit
#undef atomic_exchange_explicit
#undef atomic_fetch_add_explicit
#undef atomic_fetch_sub_explicit
#undef atomic_fetch_or_explicit
#undef atomic_fetch_and_explicit
#undef atomic_fetch_xor_explicit
#undef atomic_compare_exchange_strong_explicit
#undef atomic_compare_exchange_weak_explicit
#define V_AT(o) ((_Atomic __typeof__(*(o)) *)(o))
#define V_PLAIN(p) ((void *)(p))
#define atomic_init(o,v) __c11_atomic_init (V_AT (o), (v))
#define atomic_load_explicit(o,m) __c11_atomic_load (V_AT (o), (m))
#define atomic_store_explicit(o,v,m) __c11_atomic_store (V_AT (o), (v), (m))
#define atomic_exchange_explicit(o,v,m) __c11_atomic_exchange (V_AT (o), (v), (m))
#define atomic_fetch_add_explicit(o,v,m) __c11_atomic_fetch_add (V_AT (o), (v), (m))
#define atomic_fetch_sub_explicit(o,v,m) __c11_atomic_fetch_sub (V_AT (o), (v), (m))
#define atomic_fetch_or_explicit(o,v,m) __c11_atomic_fetch_or (V_AT (o), (v), (m))
#define atomic_fetch_and_explicit(o,v,m) __c11_atomic_fetch_and (V_AT (o), (v), (m))
#define atomic_fetch_xor_explicit(o,v,m) __c11_atomic_fetch_xor (V_AT (o), (v), (m))
#define atomic_compare_exchange_strong_explicit(o,e,d,a,b) __c11_atomic_compare_exchange_strong (V_AT (o), V_PLAIN (e), (d), (a), (b))
#define atomic_compare_exchange_weak_explicit(o,e,d,a,b) __c11_atomic_compare_exchange_weak (V_AT (o), V_PLAIN (e), (d), (a), (b))
#define atomic_load(o) atomic_load_explicit (o, __ATOMIC_SEQ_CST)
#define atomic_store(o,v) atomic_store_explicit (o, v, __ATOMIC_SEQ_CST)
#define atomic_exchange(o,v) atomic_exchange_explicit (o, v, __ATOMIC_SEQ_CST)
#define atomic_fetch_add(o,v) atomic_fetch_add_explicit (o, v, __ATOMIC_SEQ_CST)
#define atomic_fetch_sub(o,v) atomic_fetch_sub_explicit (o, v, __ATOMIC_SEQ_CST)
#define atomic_fetch_or(o,v) atomic_fetch_or_explicit (o, v, __ATOMIC_SEQ_CST)
#define atomic_fetch_and(o,v) atomic_fetch_and_explicit (o, v, __ATOMIC_SEQ_CST)
#define atomic_fetch_xor(o,v) atomic_fetch_xor_explicit (o, v, __ATOMIC_SEQ_CST)
#define atomic_compare_exchange_strong(o,e,d) atomic_compare_exchange_strong_explicit (o, e, d, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
#define atomic_compare_exchange_weak(o,e,d) atomic_compare_exchange_weak_explicit (o, e, d, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
#endif
