/* Recording backend: a stand-in that only records what the wrapper does. */
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "interflop/interflop.h"
#include "interflop/interflop_stdlib.h"
typedef uint64_t u64;
void sim_record(int backend, int ev, u64 a, u64 b, u64 c, u64 d, u64 e);
enum { PRE = 1, CLI, INIT, OP, UCALL, ENTER, EXITF, FINAL };
struct ctx { int inst; unsigned mask; int magic; };
static struct ctx C[16];
static int nctx;
#define BK(c) (ID * 16 + ((struct ctx *)(c))->inst)
static u64 db(double d) { u64 u; memcpy(&u, &d, 8); return u; }
static u64 fb(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
static u64 mix(u64 h, u64 v) { h ^= v; h *= 0x9E3779B97F4A7C15ull; return h ^ (h >> 29); }
static u64 hs(const char *s) { u64 h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull; return h; }
/* results: a fixed function of backend, operation and operands, always finite */
static double rd(u64 h) { u64 u = 0x3ff0000000000000ull | (h >> 12); double d; memcpy(&d, &u, 8); return d; }
static float rf(u64 h) { uint32_t u = 0x3f800000u | (uint32_t)(h >> 41); float d; memcpy(&d, &u, 4); return d; }
#define BIN(P, p, name, code, TOB, MK)                                         \
  static void name##_##P(P a, P b, P *c, void *x) {                            \
    u64 h = mix(mix(mix(ID * 77 + code, BK(x)), TOB(a)), TOB(b));              \
    sim_record(BK(x), OP, code, TOB(a), TOB(b), 0, 0);                         \
    *c = MK(h);                                                                \
  }
BIN(float, f, add, 0, fb, rf) BIN(float, f, sub, 1, fb, rf)
BIN(float, f, mul, 2, fb, rf) BIN(float, f, div, 3, fb, rf)
BIN(double, d, add, 4, db, rd) BIN(double, d, sub, 5, db, rd)
BIN(double, d, mul, 6, db, rd) BIN(double, d, div, 7, db, rd)
static void cmp_float(enum FCMP_PREDICATE p, float a, float b, int *c, void *x) {
  sim_record(BK(x), OP, 8, p, fb(a), fb(b), 0);
  *c = (int)(mix(mix(mix(ID * 77 + 8 + 100 * p, BK(x)), fb(a)), fb(b)) & 0x7fffffff);
}
static void cmp_double(enum FCMP_PREDICATE p, double a, double b, int *c, void *x) {
  sim_record(BK(x), OP, 9, p, db(a), db(b), 0);
  *c = (int)(mix(mix(mix(ID * 77 + 9 + 100 * p, BK(x)), db(a)), db(b)) & 0x7fffffff);
}
static void cast(double a, float *b, void *x) {
  sim_record(BK(x), OP, 10, db(a), 0, 0, 0);
  *b = rf(mix(mix(ID * 77 + 10, BK(x)), db(a)));
}
static void fma_f(float a, float b, float c, float *r, void *x) {
  sim_record(BK(x), OP, 11, fb(a), fb(b), fb(c), 0);
  *r = rf(mix(mix(mix(mix(ID * 77 + 11, BK(x)), fb(a)), fb(b)), fb(c)));
}
static void fma_d(double a, double b, double c, double *r, void *x) {
  sim_record(BK(x), OP, 12, db(a), db(b), db(c), 0);
  *r = rd(mix(mix(mix(mix(ID * 77 + 12, BK(x)), db(a)), db(b)), db(c)));
}
static void fn(int ev, interflop_function_stack_t *st, void *x, int n, va_list ap) {
  u64 h = 7;
  for (int i = 0; i < n; i++) {
    int ty = va_arg(ap, int);
    char *id = va_arg(ap, char *);
    unsigned sz = va_arg(ap, unsigned);
    void *p = va_arg(ap, void *);
    h = mix(mix(h, ty), hs(id));
    h = mix(h, sz);
    if (p) {
      unsigned m = (ty == FFLOAT || ty == FDOUBLE) ? 1 : sz;
      for (unsigned j = 0; j < m; j++)
        h = mix(h, (ty == FDOUBLE || ty == FDOUBLE_PTR) ? db(((double *)p)[j]) : fb(((float *)p)[j]));
    }
  }
  interflop_function_info_t *f = st->array[st->top];
  interflop_function_info_t *parent = f ? st->array[st->top + 1] : 0;
  u64 fl = f ? (u64)(f->isLibraryFunction | f->isIntrinsicFunction << 1 | f->useFloat << 2 | f->useDouble << 3) : 99;
  sim_record(BK(x), ev, f ? hs(f->id) : 0, n, h, parent ? hs(parent->id) : 0, fl);
}
static void enter(interflop_function_stack_t *st, void *x, int n, va_list ap) { fn(ENTER, st, x, n, ap); }
static void leave(interflop_function_stack_t *st, void *x, int n, va_list ap) { fn(EXITF, st, x, n, ap); }
static void ucall(void *x, interflop_call_id id, va_list ap) {
  u64 a = 0, b = 0, c = 0;
  switch ((int)id) {
  case INTERFLOP_INEXACT_ID: {
    a = va_arg(ap, int);
    void *p = va_arg(ap, void *);
    b = a == FDOUBLE ? db(*(double *)p) : fb(*(float *)p);
    c = va_arg(ap, int);
    break;
  }
  case 2: case 3: case 4: case 5: a = va_arg(ap, int); break;
  default:
    a = va_arg(ap, int);
    b = db(va_arg(ap, double));
    c = hs(va_arg(ap, char *));
  }
  sim_record(BK(x), UCALL, (u64)(int64_t)(int)id, a, b, c, 0);
}
static void fini(void *x) { sim_record(BK(x), FINAL, 0, 0, 0, 0, 0); }

#ifndef NO_PRE
void interflop_pre_init(interflop_panic_t panic, File *stream, void **context) {
  struct ctx *c = &C[nctx];
  c->inst = nctx++;
  c->mask = 0xffff;
  *context = c;
  sim_record(BK(c), PRE, panic != 0, stream != 0, 0, 0, 0);
}
#endif
#ifndef NO_CLI
void interflop_cli(int argc, char **argv, void *x) {
  u64 h = 3;
  for (int i = 1; i < argc; i++) {
    h = mix(h, hs(argv[i]));
    if (!strncmp(argv[i], "--mask=", 7))
      ((struct ctx *)x)->mask = strtoul(argv[i] + 7, 0, 16);
  }
  sim_record(BK(x), CLI, argc, h, argv[argc] == 0, 0, 0);
}
#endif
#ifndef NO_INIT
struct interflop_backend_interface_t interflop_init(void *x) {
  unsigned m = ((struct ctx *)x)->mask;
  struct interflop_backend_interface_t r;
  memset(&r, 0, sizeof r);
#define SET(bit, f, v) if (m >> bit & 1) r.interflop_##f = v;
  SET(0, add_float, add_float) SET(1, sub_float, sub_float) SET(2, mul_float, mul_float) SET(3, div_float, div_float)
  SET(4, add_double, add_double) SET(5, sub_double, sub_double) SET(6, mul_double, mul_double) SET(7, div_double, div_double)
  SET(8, cmp_float, cmp_float) SET(9, cmp_double, cmp_double) SET(10, cast_double_to_float, cast)
  SET(11, fma_float, fma_f) SET(12, fma_double, fma_d)
  SET(13, enter_function, enter) SET(13, exit_function, leave)
  SET(14, user_call, ucall) SET(15, finalize, fini)
  sim_record(BK(x), INIT, 0, 0, 0, 0, 0);
  return r;
}
#endif
