/* Lists: constructors, accessors, searching and structural equality on objects of every type. */
#define K_CATCH_ERROR 1
#include "kmes.h"
#include "objs.h"
#ifndef LEN
#define LEN 3
#endif
static void k_builtins (void) { k_builtin ("sx-run", 0, k_run_); }
static struct obj *e[8]; static struct scm *sp[9];      /* elements and spine of a list */
static struct obj *any (void) { return o_make (sx_choice (OKEY + 1)); }
static struct obj *few (void) { static int k[] = { ONUM, OSYM, OSTR, ONIL }; return o_make (k[sx_choice (4)]); }
static void build (int n, struct scm *tail) { sp[n] = tail; for (int i = n - 1; i >= 0; i--) sp[i] = cons (e[i]->p, sp[i + 1]); }
static void kept (int n) { for (int i = 0; i < n; i++) { sx_assert (sp[i]->type == TPAIR && sp[i]->car == e[i]->p && sp[i]->cdr == sp[i + 1], "list-kept"); sx_assert (o_is (e[i], e[i]->p), "element-kept"); } }
static struct obj *tree (int d)
{
  int k = sx_choice (d ? 7 : 5);
  if (k == 5) { struct obj *a = tree (d - 1); return o_pair (a, tree (d - 1)); }
  if (k == 6)
    {
      struct obj *o = o_new (OVEC);
      o->n = sx_choice (3);
      struct scm *l = cell_nil;
      for (int i = 0; i < o->n; i++) o->e[i] = o_make (sx_choice (2) ? ONUM : OSTR);
      for (int i = o->n - 1; i >= 0; i--) l = cons (o->e[i]->p, l);
      o->p = list_to_vector (l);
      return o;
    }
  static int t[] = { ONUM, OCHAR, OSYM, OSTR, ONIL };
  return o_make (t[k]);
}
static struct scm *k_run (void)
{
  int c = sx_case (10), n;
  struct scm *r; struct obj *x;
  switch (c)
    {
    case 0:
      {
        struct obj *a = any (), *d = any ();
        r = cons (a->p, d->p);
        sx_assert (r->type == TPAIR && car (r) == a->p && cdr (r) == d->p && pair_p (r) == cell_t && null_p (r) == cell_f, "cons");
        struct scm *r2 = cons (a->p, d->p);
        sx_assert (r != r2 && eq_p (r, r2) == cell_f, "cons-fresh");
        sx_assert (null_p (a->p) == k_bool (a->kind == ONIL) && pair_p (a->p) == cell_f, "null?");
        struct obj *b = few ();
        set_car_x (r, b->p);
        sx_assert (car (r) == b->p && cdr (r) == d->p && car (r2) == a->p, "set-car!");
        set_cdr_x (r, b->p);
        sx_assert (car (r) == b->p && cdr (r) == b->p && cdr (r2) == d->p, "set-cdr!");
        r = acons (a->p, d->p, r2);
        sx_assert (r->cdr == r2 && r->car->type == TPAIR && r->car->car == a->p && r->car->cdr == d->p, "acons");
        sx_assert (o_is (a, a->p) && o_is (d, d->p) && o_is (b, b->p), "element-kept");
        break;
      }
    case 1:
      x = any ();
      switch (sx_choice (4)) { case 0: K_BAD (car (x->p)); case 1: K_BAD (cdr (x->p)); case 2: K_BAD (set_car_x (x->p, cell_t)); default: K_BAD (set_cdr_x (x->p, cell_t)); }
    case 2:
      n = sx_choice (LEN + 3); for (int i = 0; i < n; i++) e[i] = few ();
      build (n, cell_nil);
      r = length (sp[0]);
      sx_assert (r->type == TNUMBER && r->value == n, "length");
      r = last_pair (sp[0]);
      sx_assert (r == (n ? sp[n - 1] : cell_nil), "last-pair");
      sx_assert (list (sp[0]) == sp[0], "list");
      kept (n);
      break;
    case 3:
      {  /* append, append-reverse, reverse! */
        n = sx_choice (LEN + 1); for (int i = 0; i < n; i++) e[i] = few ();
        build (n, cell_nil);
        struct obj *y = sx_choice (2) ? o_pair (few (), o_make (ONIL)) : few ();
        int w = sx_choice (3);
        r = w == 0 ? append2 (sp[0], y->p) : w == 1 ? append_reverse (sp[0], y->p) : reverse_x_ (sp[0], y->p);
        if (w < 2) kept (n);
        struct scm *q = r;
        for (int i = 0; i < n; i++)
          {
            sx_assert (q->type == TPAIR && q->car == e[w ? n - 1 - i : i]->p, "appended-element");
            if (w < 2) for (int j = 0; j < n; j++) sx_assert (q != sp[j], "append-shares");
            q = q->cdr;
          }
        sx_assert (q == y->p && o_is (y, y->p), "appended-tail");
        break;
      }
    case 4:
      { /* improper lists are refused */
        n = sx_choice (3); for (int i = 0; i < n; i++) e[i] = few ();
        x = o_make (sx_choice (2) ? ONUM : OSYM);
        build (n, x->p);
        switch (sx_choice (3)) { case 0: K_BAD (append2 (sp[0], cell_nil)); case 1: K_BAD (append_reverse (sp[0], cell_nil)); default: K_BAD (reverse_x_ (sp[0], cell_nil)); }
      }
    case 5: /* memq: any two types */
      x = any (); e[0] = any (); e[1] = sx_choice (2) ? x : any ();
      build (2, cell_nil);
      r = memq (x->p, sp[0]);
      sx_assert (r == (o_eq (x, e[0]) ? sp[0] : o_eq (x, e[1]) ? sp[1] : cell_f), "memq");
      kept (2);
      sx_assert (memq (x->p, cell_nil) == cell_f, "memq-nil");
      sx_assert (eq_p (x->p, e[0]->p) == k_bool (o_eq (x, e[0])) && eq_p (e[0]->p, x->p) == k_bool (o_eq (x, e[0])), "eq");
      break;
    case 6: /* longer lists of one type */
      {
        int k = sx_choice (4); k = k == 0 ? ONUM : k == 1 ? OCHAR : k == 2 ? OKEY : OSTR;
        x = o_make (k);
        for (int i = 0; i < LEN; i++) e[i] = o_make (k);
        build (LEN, cell_nil);
        r = memq (x->p, sp[0]);
        struct scm *w = cell_f;
        for (int i = LEN - 1; i >= 0; i--) if (o_eq (x, e[i])) w = sp[i];
        sx_assert (r == w, "memq-first");
        kept (LEN);
        break;
      }
    case 7: /* assq, assoc */
      {
        x = any ();
        int m = sx_choice (2);
        e[0] = any (); e[1] = sx_choice (2) ? x : any ();
        struct scm *h0 = cons (e[0]->p, cell_t), *h1 = cons (e[1]->p, cell_f), *l = l2 (h0, h1);
        r = m ? assoc (x->p, l) : assq (x->p, l);
        int f0 = m ? o_equal (x, e[0]) : o_eq (x, e[0]), f1 = m ? o_equal (x, e[1]) : o_eq (x, e[1]);
        sx_assert (r == (f0 ? h0 : f1 ? h1 : cell_f), m ? "assoc" : "assq");
        sx_assert (h0->car == e[0]->p && h0->cdr == cell_t && l->car == h0 && l->cdr->car == h1 && l->cdr->cdr == cell_nil, "alist-kept");
        sx_assert ((m ? assoc (x->p, cell_nil) : assq (x->p, cell_nil)) == cell_f, "assoc-nil");
        break;
      }
    case 8: /* equal? */
      {
        x = tree (1);
        struct obj *y = tree (1);
        int q = o_equal (x, y);
        sx_assert (equal2_p (x->p, y->p) == k_bool (q), "equal");
        sx_assert (equal2_p (x->p, x->p) == cell_t, "equal-self");
        break;
      }
    case 9: /* assoc over pairs as keys, equal? of long and deep lists */
      {
        struct obj *a = o_make (ONUM), *b = o_make (OSTR), *c2 = o_make (ONUM), *d = o_make (OSTR);
        struct obj *k1 = o_pair (a, o_pair (b, o_make (ONIL))), *k2 = o_pair (c2, o_pair (d, o_make (ONIL)));
        struct scm *h = cons (k1->p, cell_t), *l = l1 (h);
        sx_assert (assoc (k2->p, l) == (o_equal (k1, k2) ? h : cell_f), "assoc-pair");
        sx_assert (equal2_p (k1->p, k2->p) == k_bool (o_equal (k1, k2)), "equal-list");
        struct obj *t1 = o_pair (o_pair (o_pair (a, b), a), a), *t2 = o_pair (o_pair (o_pair (c2, d), c2), sx_choice (2) ? c2 : a);
        sx_assert (equal2_p (t1->p, t2->p) == k_bool (o_equal (t1, t2)), "equal-deep");
        break;
      }
    }
  sx_cover ("ok");
  return 0;
}
int sx_main (void) { return k_boot (); }
