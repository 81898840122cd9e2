/* Evaluation: every program of a grammar of expressions, run by the interpreter from its text and by an
   independent evaluator on the syntax tree; values, the order and number of effects are compared. */
#define K_CATCH_ERROR 1
#include "kmes.h"
#ifndef D
#define D 2
#endif

enum { NUM, VAR, IF, BEGIN, SET, LAMBDA, APP, DEFINE, NILQ, QUOTE };
enum { P_ADD, P_LT, P_EQ, P_NULL, P_CAR, P_CDR, P_CONS, P_T, P_APPLY, P_LIST, P_PROC, NPRIM };
static char const *prim[NPRIM] = { "+", "<", "eq?", "null?", "car", "cdr", "cons", "t", "ap", "list", "isproc" };
struct node { int k, n, rest; long v; char const *s; struct node *c[6]; char const *f[4]; };
struct env;
struct val { int k; long v; struct val *a, *d; struct node *l; struct env *e; };
typedef struct val *V;
enum { VNUM, VBOOL, VNIL, VPAIR, VCLO, VPRIM, VUNSPEC, VSYM };
struct env { char const *s; V v; struct env *up; };
static struct node *nd (int k) { struct node *n = sx_zmalloc (sizeof (struct node)); n->k = k; return n; }
static struct node *num (long v) { struct node *n = nd (NUM); n->v = v; return n; }
static struct node *var (char const *s) { struct node *n = nd (VAR); n->s = s; return n; }
static struct node *N1 (int k, struct node *a) { struct node *n = nd (k); n->n = 1; n->c[0] = a; return n; }
static struct node *N2 (int k, struct node *a, struct node *b) { struct node *n = N1 (k, a); n->n = 2; n->c[1] = b; return n; }
static struct node *N3 (int k, struct node *a, struct node *b, struct node *c) { struct node *n = N2 (k, a, b); n->n = 3; n->c[2] = c; return n; }
static struct node *N4 (int k, struct node *a, struct node *b, struct node *c, struct node *d) { struct node *n = N3 (k, a, b, c); n->n = 4; n->c[3] = d; return n; }
static struct node *call1 (char const *f, struct node *a) { return N2 (APP, var (f), a); }
static struct node *call2 (char const *f, struct node *a, struct node *b) { return N3 (APP, var (f), a, b); }
static struct node *set (char const *s, struct node *a) { struct node *n = N1 (SET, a); n->s = s; return n; }
static struct node *def (char const *s, struct node *a) { struct node *n = N1 (DEFINE, a); n->s = s; return n; }
static struct node *lam (int k, char const *f0, char const *f1, int rest, struct node *body)
{
  struct node *n = nd (LAMBDA);
  n->v = k; n->rest = rest; n->f[0] = f0; n->f[1] = f1; n->n = 1; n->c[0] = body;
  return n;
}
static struct node *lamx (char const *x, struct node *body) { return lam (1, x, 0, 0, body); }
static struct node *lam0 (struct node *body) { return lam (0, 0, 0, 0, body); }
static struct node *more (struct node *l, struct node *body) { l->c[l->n++] = body; return l; }

/* the text of a program */
static char txt[4000]; static int tn;
static void p_s (char const *s) { while (*s) txt[tn++] = *s++; }
static void p_num (long v) { char b[24]; int n = 0; if (v < 0) { txt[tn++] = '-'; v = -v; } do b[n++] = '0' + v % 10; while (v /= 10); while (n) txt[tn++] = b[--n]; }
static void p_node (struct node *n)
{
  int i;
  switch (n->k)
    {
    case NUM: p_num (n->v); return;
    case VAR: p_s (n->s); return;
    case NILQ: p_s ("'()"); return;
    case QUOTE: p_s ("'"); p_s (n->s); return;
    case IF: p_s ("(if"); break;
    case BEGIN: p_s ("(begin"); break;
    case SET: p_s ("(set! "); p_s (n->s); break;
    case DEFINE:
      if (n->v && n->c[0]->k == LAMBDA)         /* (define (f . formals) body) */
        {
          struct node *l = n->c[0];
          p_s ("(define ("); p_s (n->s);
          for (i = 0; i < l->v; i++) { p_s (" "); p_s (l->f[i]); }
          if (l->rest) { p_s (" . "); p_s (l->f[l->v]); }
          p_s (")");
          for (i = 0; i < l->n; i++) { p_s (" "); p_node (l->c[i]); }
          p_s (")");
          return;
        }
      p_s ("(define "); p_s (n->s); break;
    case LAMBDA:
      p_s ("(lambda ");
      if (n->rest && n->v == 0) p_s (n->f[0]);
      else
        {
          p_s ("(");
          for (i = 0; i < n->v; i++) { if (i) p_s (" "); p_s (n->f[i]); }
          if (n->rest) { p_s (" . "); p_s (n->f[n->v]); }
          p_s (")");
        }
      break;
    case APP:
      p_s ("(");
      for (i = 0; i < n->n; i++) { if (i) p_s (" "); p_node (n->c[i]); }
      p_s (")");
      return;
    }
  for (i = 0; i < n->n; i++) { p_s (" "); p_node (n->c[i]); }
  p_s (")");
}

/* the evaluator */
static long a0, a1, a2;
static struct env *genv;
static long tr[40], got[40]; static int trn, gotn;
static V mk (int k, long v) { V r = sx_zmalloc (sizeof (struct val)); r->k = k; r->v = v; return r; }
static V pair (V a, V d) { V r = mk (VPAIR, 0); r->a = a; r->d = d; return r; }
static struct env *bind (char const *s, V v, struct env *up) { struct env *e = sx_zmalloc (sizeof (struct env)); e->s = s; e->v = v; e->up = up; return e; }
static int wrong;              /* the program has to raise an error */
static struct env *look (char const *s, struct env *e) { for (; e; e = e->up) if (k_eq (e->s, s)) return e; for (e = genv; e; e = e->up) if (k_eq (e->s, s)) return e; return 0; }
static V ev (struct node *n, struct env **e);
static V app (V f, int n, V *a)
{
  if (wrong) return f;
  if (f->k == VCLO)
    {
      struct node *l = f->l;
      struct env *e = f->e;
      if (l->rest ? n < l->v : n != l->v) { wrong = 1; return f; }
      for (int i = 0; i < l->v; i++) e = bind (l->f[i], a[i], e);
      if (l->rest)
        {
          V r = mk (VNIL, 0);
          for (int i = n - 1; i >= l->v; i--) r = pair (a[i], r);
          e = bind (l->f[l->v], r, e);
        }
      V r = mk (VUNSPEC, 0);
      for (int i = 0; i < l->n && !wrong; i++) r = ev (l->c[i], &e);
      return r;
    }
  if (f->k != VPRIM) { wrong = 1; return f; }
  static int arity[NPRIM] = { -1, -1, -1, 1, 1, 1, 2, 1, 2, -1, 1 };
  if (arity[f->v] >= 0 && arity[f->v] != n) { wrong = 1; return f; }
  V r = mk (VNUM, 0);
  switch (f->v)
    {
    case P_ADD: for (int i = 0; i < n; i++) { if (a[i]->k != VNUM) { wrong = 1; return r; } r->v = (unsigned long) r->v + a[i]->v; } return r;
    case P_LT: for (int i = 0; i < n; i++) if (a[i]->k != VNUM) { wrong = 1; return r; } return mk (VBOOL, a[0]->v < a[1]->v);
    case P_EQ: return mk (VBOOL, a[0]->k == a[1]->k && a[0]->v == a[1]->v);
    case P_NULL: return mk (VBOOL, a[0]->k == VNIL);
    case P_CAR: if (a[0]->k != VPAIR) { wrong = 1; return r; } return a[0]->a;
    case P_CDR: if (a[0]->k != VPAIR) { wrong = 1; return r; } return a[0]->d;
    case P_CONS: return pair (a[0], a[1]);
    case P_T: tr[trn++] = a[0]->v; return a[0];
    case P_PROC: return mk (VBOOL, a[0]->k == VCLO || a[0]->k == VPRIM);
    case P_LIST: r = mk (VNIL, 0); for (int i = n - 1; i >= 0; i--) r = pair (a[i], r); return r;
    case P_APPLY:
      {
        V b[8]; int m = 0;
        for (r = a[1]; r->k == VPAIR; r = r->d) b[m++] = r->a;
        return app (a[0], m, b);
      }
    }
  return r;
}
static V ev (struct node *n, struct env **e)
{
  V r = mk (VUNSPEC, 0); struct env *v;
  if (wrong) return r;
  switch (n->k)
    {
    case NUM: return mk (VNUM, n->v);
    case VAR: v = look (n->s, *e); if (!v) { wrong = 1; return r; } return v->v;
    case NILQ: return mk (VNIL, 0);
    case QUOTE: r->k = VSYM; return r;
    case IF:
      r = ev (n->c[0], e);
      if (wrong) return r;
      if (!(r->k == VBOOL && !r->v)) return ev (n->c[1], e);
      return n->n > 2 ? ev (n->c[2], e) : mk (VUNSPEC, 0);
    case BEGIN: for (int i = 0; i < n->n; i++) r = ev (n->c[i], e); return r;
    case SET: r = ev (n->c[0], e); v = look (n->s, *e); if (!v) wrong = 1; if (!wrong) v->v = r; return mk (VUNSPEC, 0);
    case DEFINE:
      *e = bind (n->s, mk (VUNSPEC, 0), *e);
      v = *e;
      v->v = ev (n->c[0], e);
      return mk (VUNSPEC, 0);
    case LAMBDA: r->k = VCLO; r->l = n; r->e = *e; return r;
    case APP:
      {
        V a[6];
        for (int i = 0; i < n->n; i++) { a[i] = ev (n->c[i], e); if (wrong) return r; }
        return app (a[0], n->n - 1, a + 1);
      }
    }
  return r;
}

/* the grammar */
static char const *scope[12]; static int nscope, rot;
static char const *fresh[] = { "x", "y", "z", "x", "w", "y", "u", "v" }; static int nfresh;
static char const *new (void) { return fresh[nfresh++ % 8]; }
/* a name for an inner definition: its own value must not refer to it */
static char const *newd (void)
{
  for (;;)
    {
      char const *s = new (); int i;
      for (i = 0; i < nscope; i++) if (scope[i] == s || k_eq (scope[i], s)) break;
      if (i == nscope) return s;
    }
}
static struct node *leaf (void)
{
  int i = rot++;
  if (i % 4 == 3) return num (i % 3);
  if (nscope && i % 4 != 2) return var (scope[nscope - 1 - i % nscope]);
  static char const *g[] = { "a0", "a1", "g" };
  return var (g[i % 3]);
}
static struct node *N (int d);
static struct node *B (int d)
{
  switch (d ? sx_choice (5) : rot++ % 4)
    {
    case 0: return call2 ("<", leaf (), N (d ? d - 1 : 0));
    case 1: return var ("#f");
    case 2: return N (d ? d - 1 : 0);           /* a number is true */
    case 3: return call2 ("eq?", N (0), leaf ());
    default: return N3 (IF, B (0), var ("#f"), B (0));
    }
}
static struct node *in (char const *x, int d) { scope[nscope++] = x; struct node *n = N (d); nscope--; return n; }
static struct node *in2 (char const *x, char const *y, int d) { scope[nscope++] = x; struct node *n = in (y, d); nscope--; return n; }
#define NPROD 25
static struct node *N (int d)
{
  char const *x, *y; struct node *a, *b, *l;
  if (d == 0) return leaf ();
  int p = sx_choice (NPROD), w = 0, da, db;
  d--;
#ifdef WIDE
  da = db = d;
#else
  w = sx_choice (2);            /* which part is deep */
  da = w ? 0 : d; db = w ? d : 0;
#endif
  switch (p)
    {
    case 0: return call2 ("+", N (da), N (db));
    case 1: a = B (da); return N3 (IF, a, N (db), leaf ());
    case 2: a = B (da); b = leaf (); return N3 (IF, a, b, N (db));
    case 3: a = N (da); return N2 (BEGIN, a, N (db));
    case 4: x = nscope ? scope[rot++ % nscope] : "g"; a = N (da); return N2 (BEGIN, set (x, a), call2 ("+", var (x), N (db)));
    case 5: a = N (da); x = new (); return N2 (APP, lamx (x, in (x, db)), a);
    case 6: a = N (da); x = new (); y = new (); if (x == y) y = "q"; return N3 (APP, lam (2, x, y, 0, in2 (x, y, db)), a, leaf ());
    case 7: a = N (da); x = new (); return N3 (APP, lam (1, x, "r", 1, call2 ("+", call1 ("car", var ("r")), in (x, db))), leaf (), a);
    case 8: a = N (da); return N3 (APP, lam (0, "r", 0, 1, call2 ("+", call1 ("car", var ("r")), call1 ("car", call1 ("cdr", var ("r"))))), a, N (db));
    case 9: a = N (da); x = newd (); l = lam0 (def (x, a)); return N1 (APP, more (l, in (x, db)));
    case 10: a = N (da); x = new (); return N2 (APP, lamx ("f", call2 ("+", call1 ("f", a), call1 ("f", leaf ()))), lamx (x, in (x, db)));
    case 11:                    /* a counter */
      a = N (da); x = new ();
      return N2 (APP, lamx (x, N2 (APP, lamx ("f", N2 (BEGIN, N1 (APP, var ("f")), N1 (APP, var ("f")))),
                                   lam0 (N2 (BEGIN, set (x, call2 ("+", var (x), num (1))), call1 ("t", in (x, db)))))), a);
    case 12: return call1 ("t", N (d));
    case 13: a = B (da); x = new (); return N2 (APP, N3 (IF, a, lamx (x, in (x, db)), lamx (x, call2 ("+", var (x), num (1)))), leaf ());
    case 14: a = N (da); x = new (); return N2 (APP, N2 (BEGIN, call1 ("t", a), lamx (x, in (x, db))), leaf ());
    case 15:                    /* an inner procedure that uses an outer variable */
      a = N (da); x = new (); y = new (); if (x == y) y = "q"; b = in2 (x, y, db); l = def ("h", lamx (y, call2 ("+", var (x), b))); l->v = rot++ % 2;
      return N2 (APP, more (lamx (x, l), call1 ("h", var (x))), a);
    case 16:                    /* recursion */
      l = def ("h", lam (2, "n", "m", 0, N3 (IF, call2 ("<", var ("n"), num (1)), in ("m", db), N3 (APP, var ("h"), call2 ("+", var ("n"), num (-1)), call2 ("+", var ("m"), var ("n"))))));
      l->v = rot++ % 2;
      return N1 (APP, more (lam0 (l), N3 (APP, var ("h"), num (2), N (da))));
    case 17: a = N (da); x = new (); return call2 ("ap", lamx (x, in (x, db)), call1 ("list", a));
    case 18: a = N (da); return call1 ("car", call1 ("cdr", N4 (APP, var ("list"), leaf (), a, N (db))));
    case 19: a = N (da); x = new (); return N2 (APP, N2 (APP, lamx (x, lamx ("k", call2 ("+", var (x), in2 (x, "k", db)))), a), leaf ());      /* curried */
    case 20: a = N (da); x = new (); return N2 (APP, lamx (x, N2 (BEGIN, N2 (APP, lamx (x, set (x, num (7))), num (5)), in (x, db))), a);   /* shadowing */
    case 21: a = N (da); x = new (); l = lamx (x, set ("g", call2 ("+", var ("g"), var (x)))); more (l, call1 ("t", var ("g"))); return N2 (APP, more (l, in (x, db)), a);
    case 22: a = N (da); return N3 (IF, N2 (IF, B (0), a), N (db), leaf ());       /* no else part: true */
    case 23: a = N (da); x = newd (); l = lam0 (def (x, a)); more (l, def ("f", lam0 (set (x, call2 ("+", var (x), num (1)))))); more (l, N1 (APP, var ("f"))); return N1 (APP, more (l, in (x, db)));
    default: a = N (da); x = new (); return N3 (BEGIN, set ("fn", lamx (x, in (x, db))), call1 ("t", a), call1 ("fn", leaf ()));
    }
}

static V want; static int verified;
static void same (struct scm *p, V v)
{
  switch (v->k)
    {
    case VNUM: sx_assert (p->type == TNUMBER && p->value == v->v, "value"); return;
    case VBOOL: sx_assert (p == (v->v ? cell_t : cell_f), "value"); return;
    case VNIL: sx_assert (p == cell_nil, "value"); return;
    case VUNSPEC: sx_assert (p == cell_unspecified, "value"); return;
    case VPAIR: sx_assert (p->type == TPAIR, "value"); if (p->type != TPAIR) sx_done (); same (p->car, v->a); same (p->cdr, v->d); return;
    case VCLO: sx_assert (p->type == TCLOSURE, "value"); return;
    }
}
static struct scm *b_verify (struct scm *x)
{
  if (wrong) sx_fail ("no-error");
  same (x, want);
  sx_assert (trn == gotn, "effects-count");
  for (int i = 0; i < trn && i < gotn; i++) sx_assert (tr[i] == got[i], "effects");
  struct env *g = look ("g", 0);
  x = module_ref (M0, cstring_to_symbol ("g"));
  same (x, g->v);
  sx_cover ("ok");
  sx_done ();
  return x;
}
static struct scm *b_t (struct scm *x) { if (gotn < 40) got[gotn++] = x->value; return x; }
static struct scm *b_ap (struct scm *f, struct scm *l) { return apply (f, l, R0); }
static struct scm *b_val (struct scm *i) { return make_number (i->value == 0 ? a0 : i->value == 1 ? a1 : a2); }
static void glob (char const *s, V v) { genv = bind (s, v, genv); }
static struct scm *b_text (void)
{
  struct node *n = 0, *proc = 0; int c = sx_case (NCASE), eval = 0; char const *formals = 0;
  for (int i = 0; i < NPRIM; i++) glob (prim[i], mk (VPRIM, i));
  glob ("a0", mk (VNUM, a0)); glob ("a1", mk (VNUM, a1)); glob ("g", mk (VNUM, a2)); glob ("fn", mk (VNUM, 0));
  glob ("#f", mk (VBOOL, 0)); glob ("#t", mk (VBOOL, 1));
  if (c < NCASE - 1)
    {
      eval = c / 4;             /* at top level, by core:eval, as the value of a definition */
      rot = c % 4;
      if (eval < 3)
        n = N (D);
      else                      /* the body of a procedure defined at top level */
        {
          int f = rot % 3;
          scope[nscope++] = f == 1 ? "y" : f == 2 ? "g" : "x";
          struct node *b = f == 1 ? call2 ("+", call2 ("+", var ("x"), var ("y")), N (D)) : call2 ("+", call1 ("car", var ("r")), N (D));
          nscope--;
          proc = f == 0 ? lam (1, "x", "r", 1, b) : f == 1 ? lam (2, "x", "y", 0, b) : lam (0, "r", 0, 1, b);
          n = N3 (APP, proc, var ("a0"), var ("a1"));
          formals = f == 0 ? "x . r" : f == 1 ? "x y" : ". r";
        }
    }
  else
    {
      /* procedures given too few or too many arguments; application of what is not a procedure; unbound variables */
      int k = sx_choice (4), m = sx_choice (5), i, j;
      struct node *f;
      if (k == 0)
        {
          int rest = sx_choice (2), v = sx_choice (3);
          static char const *fm[] = { "x", "y", "r" };
          f = nd (LAMBDA); f->v = v; f->rest = rest; f->n = 1; f->c[0] = rest ? var (fm[v]) : num (3);
          for (i = 0; i <= v; i++) f->f[i] = fm[i];
          if (sx_choice (2)) { f = N2 (BEGIN, set ("fn", f), var ("fn")); }
        }
      else if (k == 1)
        {
          static int pr[] = { P_NULL, P_CAR, P_CDR, P_CONS, P_PROC };
          f = var (prim[pr[sx_choice (5)]]);
        }
      else if (k == 2)
        switch (sx_choice (6)) { case 0: f = num (5); break; case 1: f = var ("#t"); break; case 2: f = NILQ == 8 ? nd (NILQ) : 0; break; case 3: f = var ("#\\a"); break; case 4: f = var ("\"s\""); break; default: f = N2 (APP, lamx ("x", var ("x")), num (1)); }
      else
        switch (sx_choice (3)) { case 0: f = var ("unbound"); break; case 1: f = set ("unbound", num (1)); break; default: f = N2 (APP, lamx ("x", N2 (APP, lamx ("y", num (1)), var ("x"))), var ("unbound")); }
      n = N1 (APP, f);
      for (j = 0; j < m; j++) { n->c[j + 1] = j == 0 ? call2 ("cons", num (1), nd (NILQ)) : num (j); n->n++; }
      if (k == 3) n = f;
      if (k == 2 && (f->k == VAR || f->k == NUM || f->k == NILQ)) { glob ("#\\a", mk (VSYM, 0)); glob ("\"s\"", mk (VSYM, 0)); }
    }
  struct env *e = 0;
  want = ev (n, &e);
  if (wrong) k_expect_error = 1;
  if (proc)
    {
      p_s ("(define (gp "); p_s (formals); p_s (") "); p_node (proc->c[0]); p_s (") (verify (gp a0 a1))");
    }
  else
    {
      p_s (eval == 2 ? "(define gg 0) (define (use) gg) (define gg " : eval ? "(verify (core:eval '" : "(verify ");
      p_node (n);
      p_s (eval == 2 ? ") (verify (use))" : eval ? " (current-module)))" : ")");
    }
  txt[tn] = 0;
#ifdef SHOW
  sx_print (txt, tn);
#endif
  return open_input_string (make_string (txt, tn));
}
static void k_builtins (void)
{
  k_builtin ("verify", 1, b_verify);
  k_builtin ("t", 1, b_t);
  k_builtin ("ap", 2, b_ap);
  k_builtin ("isproc", 1, builtin_p);
  k_builtin ("sx-val", 1, b_val);
  k_builtin ("sx-text", 0, b_text);
}
int sx_main (void)
{
  static char *av[] = { "mes", 0 };
  static char *ev[] = { "MES_BOOT=sx-boot.scm", "MES_ARENA=" ARENA, "MES_MAX_ARENA=" ARENA, "MES_STACK=" MSTACK, 0 };
  static char boot[] = "(define a0 (sx-val 0)) (define a1 (sx-val 1)) (define g (sx-val 2)) (define fn 0)\n(define x 91) (define y 92) (define r 93) (define f 94) (define h 95) (define k 96) (define m 97) (define n 98) (define q 99)\n(define (list . x) x)\n(primitive-load (sx-text))\n";
  a0 = sx_u64 ("a0"); a1 = sx_u64 ("a1"); a2 = sx_u64 ("g");
  k_init ();
  k_file ("sx-boot.scm", boot, sizeof boot - 1);
  main (1, av, ev);
  sx_fail ("returned");
  return 0;
}
