/* Effects that no run may have.  No libc header here: the stubs share one shape. */
extern int sim_deny(const char *);
#define DENY(name) __attribute__((visibility("default"), used)) \
    long name(long a, long b, long c, long d, long e, long f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; \
        return sim_deny(#name); }
/* those that return a pointer */
#define DENYP(name) __attribute__((visibility("default"), used)) \
    void *name(long a, long b) { (void)a; (void)b; sim_deny(#name); return 0; }
#include "deny.inc"
