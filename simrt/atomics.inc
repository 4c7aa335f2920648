/* What the compiler calls instead of the code's own atomic accesses (ThreadSanitizer's names).
 * Before and after each of them another thread may get the processor. */
#define ATOM_RW(bits, type) \
    EXPORT type __tsan_atomic##bits##_load(const volatile type *p, int o) { \
        (void)o; at_atom(); type v = __atomic_load_n(p, __ATOMIC_SEQ_CST); at_atom(); return v; } \
    EXPORT void __tsan_atomic##bits##_store(volatile type *p, type v, int o) { \
        (void)o; at_atom(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); at_atom(); } \
    EXPORT type __tsan_atomic##bits##_exchange(volatile type *p, type v, int o) { \
        (void)o; at_atom(); type r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); at_atom(); return r; } \
    EXPORT type __tsan_atomic##bits##_compare_exchange_val(volatile type *p, type e, type v, int o, int f) { \
        (void)o; (void)f; at_atom(); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_atom(); return e; } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile type *p, type *e, type v, int o, int f) { \
        (void)o; (void)f; at_atom(); int r = __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_atom(); return r; } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile type *p, type *e, type v, int o, int f) { \
        return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, o, f); }
#define ATOM_OP(bits, type, op) \
    EXPORT type __tsan_atomic##bits##_fetch_##op(volatile type *p, type v, int o) { \
        (void)o; at_atom(); type r = __atomic_fetch_##op(p, v, __ATOMIC_SEQ_CST); at_atom(); return r; }
#define ATOM(bits, type) \
    ATOM_RW(bits, type) ATOM_OP(bits, type, add) ATOM_OP(bits, type, sub) ATOM_OP(bits, type, and) \
    ATOM_OP(bits, type, or) ATOM_OP(bits, type, xor) ATOM_OP(bits, type, nand)
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int o) { (void)o; __atomic_thread_fence(__ATOMIC_SEQ_CST); }
EXPORT void __tsan_atomic_signal_fence(int o) { (void)o; }
EXPORT void __tsan_init(void) {}
