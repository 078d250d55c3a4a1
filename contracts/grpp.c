/* Contracts of libgrpp/grpp.c for every number of terms (CBMC + SMT, no bound; run by lib/cbmcx.py).
 * A container holding n terms is any object with capacity STEP*ceil(n/STEP) for each of its lists and
 * arbitrary contents; the property of "every earlier term" is stated for one arbitrary index (ghost). */
#include <stdlib.h>
#include "libgrpp.h"

unsigned nondet_u(void); int nondet_int(void); void *nondet_ptr(void); libgrpp_grpp_t nondet_g(void);
#define STEP 100u            /* representation: growth step */
#ifndef QMAX
#define QMAX 20000000u       /* n < 2*10^9: every count an int can hold, up to the growth step */
#endif
#ifdef REACH
#define END __CPROVER_assert(0, "reach");
#else
#define END
#endif

#ifndef DELETE
/* contract of realloc, stated for one arbitrary element of each block */
static struct { void *block, *value; unsigned long index; _Bool tracked; } ghost[2];
void *realloc(void *p, unsigned long size)
{
    void **q = malloc(size);
    __CPROVER_assume(q != 0);
    __CPROVER_assert(p == 0 || p == ghost[0].block || p == ghost[1].block, "only a block of the object is reallocated");
    for (int j = 0; j < 2; j++)
        if (p && p == ghost[j].block && ghost[j].tracked && (ghost[j].index + 1) * sizeof(void *) <= size) q[ghost[j].index] = ghost[j].value;
    return q;
}
static void *array(unsigned n, unsigned q, unsigned r, int k, int slot)
{
    unsigned long bytes = ((unsigned long) q + (r > 0)) * STEP; bytes *= sizeof(void *);
    void **a = n ? malloc(bytes) : NULL;
    __CPROVER_assume(n == 0 || a != NULL);
    ghost[slot].block = a; ghost[slot].tracked = k >= 0 && k < (int) n;
    if (ghost[slot].tracked) { ghost[slot].index = k; ghost[slot].value = a[k]; }
    return a;
}
#define CAP(p) (__CPROVER_OBJECT_SIZE(p) - __CPROVER_POINTER_OFFSET(p))
#define SETUP unsigned q = nondet_u(), r = nondet_u(); __CPROVER_assume(q < QMAX && r < STEP); int n = q * STEP + r, k = nondet_int(); \
    libgrpp_grpp_t g0 = nondet_g(), *g = malloc(sizeof *g); __CPROVER_assume(g != NULL); void *pot = nondet_ptr(), *sh = nondet_ptr();
#define POST(num, arr, slot, new) \
    __CPROVER_assert(g->num == n + 1, #num " grows by one"); \
    __CPROVER_assert((void *) g->arr[n] == new, #arr ": the new term is the last one"); \
    if (ghost[slot].tracked) __CPROVER_assert((void *) g->arr[k] == ghost[slot].value, #arr ": an arbitrary earlier term is kept"); \
    __CPROVER_assert(CAP(g->arr) >= ((unsigned long) q + 1) * STEP * sizeof(void *), #arr ": capacity invariant");
#define SAME(f) __CPROVER_assert(g->f == g0.f, #f " is not touched");

static void *released; static int nrel;
void libgrpp_delete_potential(libgrpp_potential_t *p) { released = p; nrel = nrel < 2 ? nrel + 1 : 2; }
void libgrpp_delete_shell(libgrpp_shell_t *p) { nrel = 2; }

void add_averaged(void)
{
    SETUP
    g0.n_arep = n; g0.U_arep = array(n, q, r, k, 0); *g = g0;
    libgrpp_grpp_add_averaged_potential(g, pot);
    POST(n_arep, U_arep, 0, pot)
    SAME(U_L) SAME(n_esop) SAME(U_esop) SAME(n_oc_shells) SAME(U_oc) SAME(oc_shells)
    __CPROVER_assert(nrel == 0, "nothing is released"); END
}
void add_spin_orbit(void)
{
    SETUP
    g0.n_esop = n; g0.U_esop = array(n, q, r, k, 0); *g = g0;
    libgrpp_grpp_add_spin_orbit_potential(g, pot);
    POST(n_esop, U_esop, 0, pot)
    SAME(U_L) SAME(n_arep) SAME(U_arep) SAME(n_oc_shells) SAME(U_oc) SAME(oc_shells)
    __CPROVER_assert(nrel == 0, "nothing is released"); END
}
void add_outercore(void)
{
    SETUP
    g0.n_oc_shells = n; g0.U_oc = array(n, q, r, k, 0); g0.oc_shells = array(n, q, r, k, 1); *g = g0;
    libgrpp_grpp_add_outercore_potential(g, pot, sh);
    POST(n_oc_shells, U_oc, 0, pot)
    POST(n_oc_shells, oc_shells, 1, sh)
    SAME(U_L) SAME(n_arep) SAME(U_arep) SAME(n_esop) SAME(U_esop)
    __CPROVER_assert(nrel == 0, "nothing is released"); END
}
void set_local(void)
{
    libgrpp_grpp_t g0 = nondet_g(), *g = malloc(sizeof *g); __CPROVER_assume(g != NULL); void *pot = nondet_ptr(); *g = g0;
    __CPROVER_assume(pot == NULL || pot != g0.U_L);
    libgrpp_grpp_set_local_potential(g, pot);
    __CPROVER_assert(g->U_L == pot, "the potential set last is the local one");
    if (g0.U_L != NULL) __CPROVER_assert(nrel == 1 && released == g0.U_L, "the previous local potential is released, once");
    else __CPROVER_assert(nrel == 0, "nothing is released when there was none");
    SAME(n_arep) SAME(U_arep) SAME(n_esop) SAME(U_esop) SAME(n_oc_shells) SAME(U_oc) SAME(oc_shells) END
}
void new_grpp(void)
{
    libgrpp_grpp_t *g = libgrpp_new_grpp();
    __CPROVER_assert(g->U_L == NULL && g->n_arep == 0 && g->n_esop == 0 && g->n_oc_shells == 0, "a new object is empty");
    __CPROVER_assert(g->U_arep == NULL && g->U_esop == NULL && g->U_oc == NULL && g->oc_shells == NULL, "a new object satisfies the representation invariant"); END
}
#else
/* ghost: one arbitrary pointer gv and how often it is released; KIND says which list holds it, at index gk
 * (0 averaged, 1 spin-orbit, 2 outercore potential, 3 outercore shell, 4 local, 5 none of them) */
void *gv; int cnt_p, cnt_s, gk, g_na, g_ns, g_no;
void libgrpp_delete_potential(libgrpp_potential_t *p) { __CPROVER_assert(p != NULL, "no NULL term is released"); if ((void *) p == gv) cnt_p = cnt_p < 2 ? cnt_p + 1 : 2; }
void libgrpp_delete_shell(libgrpp_shell_t *p) { __CPROVER_assert(p != NULL, "no NULL term is released"); if ((void *) p == gv) cnt_s = cnt_s < 2 ? cnt_s + 1 : 2; }
static void **array(int *n, int kd)
{
    unsigned q = nondet_u(), r = nondet_u(); __CPROVER_assume(q < QMAX && r < STEP); *n = q * STEP + r;
    unsigned long bytes = ((unsigned long) q + (r > 0)) * STEP; bytes *= sizeof(void *);
    void **a = *n ? malloc(bytes) : NULL;
    __CPROVER_assume(*n == 0 || a != NULL);
    if (KIND == kd) { gk = nondet_int(); __CPROVER_assume(gk >= 0 && gk < *n); __CPROVER_assume(a[gk] == gv); }
    int N = *n, K = KIND == kd ? gk : -1;
#ifndef SAFE
    __CPROVER_assume(__CPROVER_forall { int j; (0 <= j && j < N && j != K) ==> a[j] != gv });   /* distinct terms */
#endif
    return a;
}
void delete_grpp(void)
{
    libgrpp_grpp_t *g = malloc(sizeof *g); __CPROVER_assume(g != NULL); int n4;
    gv = nondet_ptr(); __CPROVER_assume(gv != NULL); cnt_p = cnt_s = 0;
    g->U_L = nondet_ptr(); __CPROVER_assume((g->U_L == gv) == (KIND == 4));
    g->U_arep = (libgrpp_potential_t **) array(&g->n_arep, 0);
    g->U_esop = (libgrpp_potential_t **) array(&g->n_esop, 1);
    g->U_oc = (libgrpp_potential_t **) array(&g->n_oc_shells, 2);
    g->oc_shells = (libgrpp_shell_t **) array(&n4, 3); __CPROVER_assume(n4 == g->n_oc_shells);
    g_na = g->n_arep; g_ns = g->n_esop; g_no = g->n_oc_shells;
    libgrpp_delete_grpp(g);
#ifndef SAFE
    __CPROVER_assert(cnt_p == (KIND == 0 || KIND == 1 || KIND == 2 || KIND == 4), "a potential of the object is released exactly once, no other is");
    __CPROVER_assert(cnt_s == (KIND == 3), "a shell of the object is released exactly once, no other is");
#endif
    END
}
#endif
