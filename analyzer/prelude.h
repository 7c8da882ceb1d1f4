/* Force-included before the repository's headers when clang lowers the sources
 * for analysis.  gcc accepts the __atomic_*_n builtins on _Atomic objects, clang
 * only on plain ones: view the operand through its unqualified value type.  The
 * memory order and the object accessed are unchanged. */
#ifndef VERIF_PRELUDE_H
#define VERIF_PRELUDE_H
#define VP_AT(p) ((volatile __typeof__(((void)0, *(p))) *)(p))
#define __atomic_load_n(p, o) __atomic_load_n(VP_AT(p), o)
#define __atomic_store_n(p, v, o) __atomic_store_n(VP_AT(p), v, o)
#define __atomic_exchange_n(p, v, o) __atomic_exchange_n(VP_AT(p), v, o)
#define __atomic_fetch_add(p, v, o) __atomic_fetch_add(VP_AT(p), v, o)
#define __atomic_fetch_sub(p, v, o) __atomic_fetch_sub(VP_AT(p), v, o)
#define __atomic_fetch_or(p, v, o) __atomic_fetch_or(VP_AT(p), v, o)
#define __atomic_fetch_xor(p, v, o) __atomic_fetch_xor(VP_AT(p), v, o)
#define __atomic_fetch_and(p, v, o) __atomic_fetch_and(VP_AT(p), v, o)
#define __atomic_compare_exchange_n(p, e, d, w, s, f) \
	__atomic_compare_exchange_n(VP_AT(p), e, d, w, s, f)
#endif
