/* Drives the compiled kernels of pmesh directly, with hostile arguments, under a sanitizer.
 *
 * usage: driver SEED CASES
 *
 * Buffers are allocated to the exact byte; the padding between strided elements holds a pattern
 * that must survive. Under the memory sanitizer every produced value must be initialised. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stddef.h>
#include <math.h>
#include "pmesh/_window_imp.h"
#include "pmesh/_whitenoise_imp.h"

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define CHECKINIT(p, n) __msan_check_mem_is_initialized(p, n)
#define FORGET(p, n) __msan_poison(p, n)
#endif
#endif
#ifndef CHECKINIT
#define CHECKINIT(p, n) (void) 0
#define FORGET(p, n) (void) 0
#endif

/* gsl reports errors to Python; here there is none */
void * PyExc_RuntimeError;
void PyErr_SetString(void * type, const char * text) { printf("BROKEN gsl: %s\n", text); fflush(stdout); exit(3); }
void * PyErr_Format(void * type, const char * text, ...) { PyErr_SetString(type, text); return 0; }

ptrdiff_t pmesh_get_invariant_index(int ndim, const ptrdiff_t x[], const uint32_t cmask, ptrdiff_t max_length);

static uint64_t state;
static uint64_t rnd(void) {
    state += 0x9E3779B97F4A7C15ull;
    uint64_t z = state;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static int below(int n) { return rnd() % n; }
static double uni(double a, double b) { return a + (b - a) * (rnd() >> 11) / 9007199254740992.0; }

static const char * kinds[] = {"tunednnb", "tunedcic", "tunedtsc", "tunedpcs", "nearest", "linear", "quadratic", "cubic",
    "lanczos2", "lanczos3", "lanczos4", "lanczos5", "lanczos6", "acg2", "acg3", "acg4", "acg5", "acg6",
    "db6", "db12", "db20", "sym6", "sym12", "sym20"};
static const PMeshPainterType types[] = {PMESH_PAINTER_TUNED_NNB, PMESH_PAINTER_TUNED_CIC, PMESH_PAINTER_TUNED_TSC, PMESH_PAINTER_TUNED_PCS,
    PMESH_PAINTER_NEAREST, PMESH_PAINTER_LINEAR, PMESH_PAINTER_QUADRATIC, PMESH_PAINTER_CUBIC,
    PMESH_PAINTER_LANCZOS2, PMESH_PAINTER_LANCZOS3, PMESH_PAINTER_LANCZOS4, PMESH_PAINTER_LANCZOS5, PMESH_PAINTER_LANCZOS6,
    PMESH_PAINTER_ACG2, PMESH_PAINTER_ACG3, PMESH_PAINTER_ACG4, PMESH_PAINTER_ACG5, PMESH_PAINTER_ACG6,
    PMESH_PAINTER_DB6, PMESH_PAINTER_DB12, PMESH_PAINTER_DB20, PMESH_PAINTER_SYM6, PMESH_PAINTER_SYM12, PMESH_PAINTER_SYM20};
static long npaint, nread, nhostile, nnoise, nindex, nfw, nhsml;

static void bad(const char * what, long icase) {
    printf("BROKEN case %ld: %s\n", icase, what);
    fflush(stdout);
    exit(3);
}

/* an array of random shape and strides in a block of exactly the bytes it needs */
typedef struct { int nd; ptrdiff_t size[4], strides[4]; size_t bytes; char * block; char * data; int el; } arr;

static void mkarr(arr * a, int nd, int cap, int el, int zero) {
    int order[4] = {0, 1, 2, 3}, d;
    a->nd = nd; a->el = el;
    for(d = 0; d < nd; d++) a->size[d] = zero && below(12) == 0 ? 0 : 1 + below(cap);
    for(d = nd - 1; d > 0; d--) { int j = below(d + 1), t = order[d]; order[d] = order[j]; order[j] = t; }
    ptrdiff_t step = el;
    ptrdiff_t lo = 0, hi = 0;
    for(d = 0; d < nd; d++) {
        int ax = order[d];
        step *= 1 + (below(3) == 0 ? 1 + below(2) : 0);
        a->strides[ax] = step;
        step *= a->size[ax] > 0 ? a->size[ax] : 1;
        if(below(4) == 0) a->strides[ax] = - a->strides[ax];
        if(a->size[ax] > 0) {
            ptrdiff_t ext = a->strides[ax] * (a->size[ax] - 1);
            if(ext < 0) lo += ext; else hi += ext;
        }
    }
    a->bytes = hi - lo + el;
    a->block = malloc(a->bytes);
    a->data = a->block - lo;
}

static int next(arr * a, ptrdiff_t * i) {
    int d;
    for(d = a->nd - 1; d >= 0; d--) { if(++i[d] < a->size[d]) return 1; i[d] = 0; }
    return 0;
}
static int empty(arr * a) { int d; for(d = 0; d < a->nd; d++) if(a->size[d] == 0) return 1; return 0; }
static char * at(arr * a, ptrdiff_t * i) { int d; char * p = a->data; for(d = 0; d < a->nd; d++) p += i[d] * a->strides[d]; return p; }

static double hostile(void) {
    static const double v[] = {NAN, INFINITY, -INFINITY, 1e300, -1e300, 1e18, -1e18, 4294967296.0, -4294967296.0, 2147483648.0, -2147483649.0,
        9.3e18, -9.3e18, 1e-320, -1e-320, -0.0, 536870912.0, -536870912.5, 3e9, -3e9};
    return v[below(sizeof(v) / sizeof(v[0]))];
}

static void window_case(long icase) {
    int k = below(3) ? below(8) : below(24);
    int nd = 1 + below(4), d, p;
    if(k >= 18 && nd > 2) nd = 2;
    if(k >= 8 && nd > 3) nd = 3;
    PMeshPainter cls, painter;
    memset(&cls, 0, sizeof cls);
    cls.type = types[k];
    cls.support = below(4) == 0 ? 1 + below(nd < 3 ? 30 : 6) : -1;
    if(below(40) == 0) { cls.ndim = 1 + below(4); cls.support = below(2) ? 2147483647 : 100000; pmesh_painter_init(&cls); cls.support = -1; cls.ndim = 0; }
    pmesh_painter_init(&cls);
    if(below(50) == 0) {
        double w = below(4) ? uni(-10, 10) : below(3) ? hostile() : 0.0;
        double f = pmesh_painter_get_fwindow(&cls, w);
        CHECKINIT(&f, sizeof f);
        nfw++;
    }
    painter = cls;
    arr a;
    int el = below(2) ? 8 : 4;
    static const int caps[] = {40, 16, 9, 5};
    mkarr(&a, nd, caps[nd - 1], el, 1);
    painter.ndim = nd;
    painter.canvas = a.data;
    painter.canvas_dtype_elsize = el;
    for(d = 0; d < nd; d++) {
        painter.order[d] = 0;
        int q = below(5);
        painter.Nmesh[d] = q == 0 ? 0 : q == 1 ? a.size[d] + below(10) : q == 2 ? 1 + below(a.size[d] + 1) : a.size[d];
        painter.scale[d] = below(20) == 0 ? 0.0 : below(3) ? 1.0 : uni(-4, 4);
        painter.translate[d] = below(2) ? 0.0 : uni(-30, 30);
        if(below(60) == 0) painter.scale[d] = hostile();
        if(below(60) == 0) painter.translate[d] = hostile();
        painter.size[d] = a.size[d];
        painter.strides[d] = a.strides[d];
    }
    if(below(3) == 0) painter.order[below(nd)] = 1;
    pmesh_painter_init(&painter);
    /* everything is the pattern, the elements are then set */
    memset(a.block, 0x5a, a.bytes);
    char * ref = malloc(a.bytes);
    ptrdiff_t i[4] = {0, 0, 0, 0};
    if(!empty(&a)) do {
        if(el == 8) *(double*) at(&a, i) = 1.0; else *(float*) at(&a, i) = 1.0f;
    } while(next(&a, i));
    int np = 1 + below(12);
    for(p = 0; p < np; p++) {
        double x[32], h = below(3) ? 1.0 : below(8) == 0 ? -1.0 * below(2) : uni(0.01, nd < 3 ? 8 : 2.2);
        for(d = 0; d < nd; d++) {
            double N = a.size[d] + 1;
            int q = below(6);
            x[d] = q == 0 ? floor(uni(-2 * N, 3 * N)) : q == 1 ? floor(uni(-N, 2 * N)) + 0.5 : q == 2 ? N - 1 + uni(-2, 2)
                 : q == 3 ? uni(-2, 2) : uni(-20 * N, 20 * N);
            if(below(12) == 0) { x[d] = hostile(); nhostile++; }
        }
        if(below(25) == 0) { static const double tiny[] = {1e-320, 1e-300, 1e-12, 1e-3, -1e300, -1e-320}; h = tiny[below(6)]; nhsml++; }
        if(nd == 1 && painter.Nmesh[0] == 0 && below(25) == 0) { h = pow(10, uni(1, 6)) / painter.support; nhsml++; }
        if(nd == 2 && below(50) == 0) { h = uni(10, 600) / painter.support; nhsml++; }
        /* far but not too far positions on small periods only take time */
        for(d = 0; d < nd; d++) {
            double g = fabs(x[d] * painter.scale[d] + painter.translate[d]);
            if(painter.Nmesh[d] > 0 && g > 1e4 && g < 1e9) x[d] = 1e10 * (painter.scale[d] == 0 ? 1 : 1 / painter.scale[d]);
            g = fabs(x[d] * painter.scale[d] + painter.translate[d]);
            if(painter.Nmesh[d] > 0 && g > 1e4 && g < 1e9) { x[d] = 0; painter.translate[d] = 0; }
        }
        double m = below(30) == 0 ? hostile() : uni(-3, 3);
        memcpy(ref, a.block, a.bytes);
        if(below(2)) {
            pmesh_painter_paint(&painter, x, m, h);
            npaint++;
        } else {
            double v = pmesh_painter_readout(&painter, x, h);
            CHECKINIT(&v, sizeof v);
            nread++;
            if(memcmp(ref, a.block, a.bytes)) bad("read-out changed the mesh", icase);
        }
    }
    /* the padding must not have changed: restore the elements and compare */
    if(!empty(&a)) {
        memset(i, 0, sizeof i);
        do { CHECKINIT(at(&a, i), el); memset(at(&a, i), 0x5a, el); } while(next(&a, i));
    }
    size_t b;
    for(b = 0; b < a.bytes; b++) if(a.block[b] != 0x5a) bad("memory between the elements of the mesh changed", icase);
    free(ref);
    free(a.block);
}

static void noise_case(long icase) {
    PMeshWhiteNoiseGenerator g;
    memset(&g, 0, sizeof g);
    arr a;
    int el = below(2) ? 16 : 8, d;
    mkarr(&a, 3, 9, el, 1);
    g.canvas = a.data;
    g.canvas_dtype_elsize = el;
    g.ndim = 3;
    for(d = 0; d < 3; d++) {
        g.size[d] = a.size[d];
        g.strides[d] = a.strides[d];
        g.Nmesh[d] = a.size[d] + (below(2) ? below(8) : 0);
        if(g.Nmesh[d] == 0) g.Nmesh[d] = 1;
        g.start[d] = g.Nmesh[d] > a.size[d] ? below(g.Nmesh[d] - a.size[d] + 1) : 0;
    }
    g.unitary = below(2);
    g.seed = rnd();
    memset(a.block, 0x5a, a.bytes);
    ptrdiff_t i[4] = {0, 0, 0, 0};
    if(!empty(&a)) do {
        float * f = (float*) at(&a, i);
        for(d = 0; d < el / 4; d++) f[d] = NAN;
        FORGET(at(&a, i), el);
    } while(next(&a, i));
    pmesh_whitenoise_generator_init(&g);
    pmesh_whitenoise_generator_fill(&g);
    nnoise++;
    if(!empty(&a)) {
        memset(i, 0, sizeof i);
        do {
            CHECKINIT(at(&a, i), el);
            double re = el == 16 ? ((double*) at(&a, i))[0] : ((float*) at(&a, i))[0];
            double im = el == 16 ? ((double*) at(&a, i))[1] : ((float*) at(&a, i))[1];
            if(!isfinite(re) || !isfinite(im)) bad("a mode was not filled", icase);
            memset(at(&a, i), 0x5a, el);
        } while(next(&a, i));
    }
    size_t b;
    for(b = 0; b < a.bytes; b++) if(a.block[b] != 0x5a) bad("memory between the modes changed", icase);
    free(a.block);
}

static void index_case(long icase) {
    static const double top[] = {0, 4e18, 1e9, 5e5, 2e4};
    int nd = 1 + below(4), d, j;
    ptrdiff_t * x = malloc(sizeof(ptrdiff_t) * nd);
    for(j = 0; j < 30; j++) {
        double t = pow(2, uni(0, log2(top[nd])));
        for(d = 0; d < nd; d++) x[d] = below(4) == 0 ? (below(2) ? 1 : -1) * (ptrdiff_t) t : (ptrdiff_t) uni(-t, t);
        uint32_t c = below(2) ? 1u << (nd - 1) : 0;
        ptrdiff_t r = pmesh_get_invariant_index(nd, x, c, below(2) ? -1 : below(100000));
        CHECKINIT(&r, sizeof r);
        if(r < -1) bad("negative number of a mode", icase);
        nindex++;
    }
    free(x);
}

int main(int argc, char ** argv) {
    long seed = atol(argv[1]), n = atol(argv[2]), i;
    for(i = 0; i < n; i++) {
        state = (seed * 1000003ull + i) * 0xD1342543DE82EF95ull;
        rnd();
        int k = below(8);
        if(k < 6) window_case(i);
        else if(k == 6) noise_case(i);
        else index_case(i);
        if(i % 64 == 0) { printf("@ %ld\n", i); fflush(stdout); }
    }
    printf("DONE paint %ld readout %ld hostile %ld noise %ld index %ld fwindow %ld hsml %ld\n", npaint, nread, nhostile, nnoise, nindex, nfw, nhsml);
    (void) kinds;
    return 0;
}
