/* Contract DSL, inputs, failure reporting.  Included first by every unit. */
#ifndef VP_CORE_H
#define VP_CORE_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef VP_PROVE
/* ---- proof mode: clauses go to the verifier ---- */
/* diagnostic output has no effect on the library state (its arguments are side-effect free) */
#define fprintf(...) ((void) 0)
#define printf(...) ((void) 0)
#define fflush(f) ((void) 0)
/* host memory is not exhausted (stated as an assumption; allocation failure aborts in the library) */
static void *vp_malloc(size_t n) { return __CPROVER_allocate(n, 0); }
#define malloc(n) vp_malloc(n)
#define free(p) ((void) (p))
#define VP_REQ(e) __CPROVER_requires(e)
#define VP_ENS(e) __CPROVER_ensures(e)
#define VP_ASG(...) __CPROVER_assigns(__VA_ARGS__)
#define VP_ASSUME(e) __CPROVER_assume(e)
#define VP_ASSERT(name, e) __CPROVER_assert((e), "VP:" name)
/* point behind the preconditions that must be reachable (checked to FAIL on every run) */
#ifdef VP_NOREACH
#define VP_REACH(name) do { } while (0)
#else
#define VP_REACH(name) __CPROVER_assert(0, "VPREACH:" name)
#endif
#define VP_IN(type, name) type name; __CPROVER_input(#name, name)
#define VP_IN_TO(type, lval, name) do { type vp_tmp_; __CPROVER_input(name, vp_tmp_); (lval) = vp_tmp_; } while (0)
#ifdef VP_DFCC
#define VP_POST(name, e) do { } while (0)       /* the ensures clauses are checked instead */
#else
#define VP_POST(name, e) VP_ASSERT(name, e)     /* the contract is asserted around the call */
#endif
#define VP_NATIVE 0
#else
/* ---- replay mode: the same unit as an ordinary program over the verifier's inputs ---- */
#define VP_NATIVE 1
#define VP_REQ(e)
#define VP_ENS(e)
#define VP_ASG(...)
static int vp_failures;
static void vp_fail(const char *n) { printf("REPLAY-FAIL %s\n", n); fflush(stdout); vp_failures++; }
#define VP_ASSUME(e) do { if (!(e)) { printf("REPLAY-ASSUME-OUT %s\n", #e); fflush(stdout); _Exit(vp_failures ? 1 : 3); } } while (0)
#define VP_ASSERT(name, e) do { if (!(e)) vp_fail(name); } while (0)
#define VP_REACH(name) do { } while (0)
#define VP_POST(name, e) do { if (!(e)) vp_fail(name); } while (0)
typedef struct { char name[64]; unsigned char v[32]; int len; int used; } vp_inp_t;
static vp_inp_t *vp_inps; static int vp_ninps = -1;
static void vp_load_inputs(void)
{
    const char *fn = getenv("VP_REPLAY");
    FILE *f = fn ? fopen(fn, "r") : NULL;
    vp_ninps = 0;
    vp_inps = calloc(4096, sizeof(*vp_inps));
    if (!f) return;
    char nm[64], hex[80];
    while (vp_ninps < 4096 && fscanf(f, "%63s %79s", nm, hex) == 2) {
        vp_inp_t *p = &vp_inps[vp_ninps++];
        snprintf(p->name, sizeof p->name, "%s", nm);
        int n = (int) strlen(hex) / 2;              /* big endian hex -> little endian bytes */
        for (int i = 0; i < n && i < 32; i++) {
            unsigned b; sscanf(hex + 2 * (n - 1 - i), "%2x", &b); p->v[i] = (unsigned char) b;
        }
        p->len = n;
    }
    fclose(f);
}
static void vp_read(const char *name, void *dst, size_t sz)
{
    if (vp_ninps < 0) vp_load_inputs();
    memset(dst, 0, sz);
    for (int i = 0; i < vp_ninps; i++)
        if (!vp_inps[i].used && !strcmp(vp_inps[i].name, name)) {
            vp_inps[i].used = 1;
            memcpy(dst, vp_inps[i].v, sz < 32 ? sz : 32);
            return;
        }
}
#define VP_IN(type, name) type name; vp_read(#name, &name, sizeof(name))
#define VP_IN_TO(type, lval, name) do { type vp_tmp_; vp_read(name, &vp_tmp_, sizeof vp_tmp_); (lval) = vp_tmp_; } while (0)
#endif

static int vp_nd_int(const char *n)
{
    int x;
#ifdef VP_PROVE
    __CPROVER_input("nd_int", x);
#else
    vp_read("nd_int", &x, sizeof x);
#endif
    return x;
}
static _Bool vp_nd_bool(const char *n)
{
    unsigned char x;
#ifdef VP_PROVE
    __CPROVER_input("nd_bool", x);
#else
    vp_read("nd_bool", &x, sizeof x);
#endif
    return x != 0;
}
static uint64_t vp_nd_u64(const char *n)
{
    uint64_t x;
#ifdef VP_PROVE
    __CPROVER_input("nd_u64", x);
#else
    vp_read("nd_u64", &x, sizeof x);
#endif
    return x;
}
#endif
