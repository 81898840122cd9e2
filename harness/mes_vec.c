/* Vectors and structs. */
#define K_CATCH_ERROR 1
#include "kmes.h"
#include "objs.h"
#ifndef N
#define N 3
#endif
static void k_builtins (void) { k_builtin ("sx-run", 0, k_run_); }
static struct obj *any (void) { return o_make (sx_choice (OKEY + 1)); }
static struct obj *few (void) { static int k[] = { ONUM, OCHAR, OSTR, ONIL }; return o_make (k[sx_choice (4)]); }
static struct obj *m[8]; static int len; static struct scm *V; static int S;    /* the model: elements */
static struct scm *ref (long i) { return S ? struct_ref (V, make_number (i)) : vector_ref (V, make_number (i)); }
static void set (long i, struct scm *x) { if (S) struct_set_x (V, make_number (i), x); else vector_set_x (V, make_number (i), x); }
/* numbers and characters are stored by value, everything else by identity */
static void elt (struct obj *o, struct scm *p, char const *id) { sx_assert (o_is (o, p) && (o->kind == ONUM || o->kind == OCHAR || p == o->p), id); }
static void check (char const *id)
{
  struct scm *l = S ? struct_length (V) : vector_length (V);
  sx_assert (l->type == TNUMBER && l->value == len, "length");
  for (int i = 0; i < len; i++) elt (m[i], ref (i), id);
  if (!S)
    {
      struct scm *x = vector_to_list (V);
      for (int i = 0; i < len; i++) { sx_assert (x->type == TPAIR, "vector->list"); elt (m[i], x->car, "vector->list"); x = x->cdr; }
      sx_assert (x == cell_nil, "vector->list-end");
    }
}
static void build (void)
{
  S = sx_choice (2);
  struct scm *l = cell_nil;
  len = sx_choice (N + 1);
  for (int i = 0; i < len; i++) m[i] = few ();
  for (int i = len - 1; i >= 0; i--) l = cons (m[i]->p, l);
  if (!S) { V = list_to_vector (l); sx_assert (V->type == TVECTOR, "vector-type"); return; }
  for (int i = len - 1; i >= 0; i--) m[i + 2] = m[i];
  len += 2;
  m[0] = o_make (OSYM); m[1] = sx_choice (2) ? o_make (OSTR) : o_make (OTRUE);
  V = make_struct (m[0]->p, l, m[1]->p);
  sx_assert (V->type == TSTRUCT, "struct-type");
}
static struct scm *bad (void)
{
  switch (sx_choice (5)) { case 0: return make_number (sx_u64 ("n")); case 1: return cell_nil; case 2: return cstring_to_symbol ("x"); case 3: return cons (cell_t, cell_nil); default: return make_string0 ("ab"); }
}
static struct scm *k_run (void)
{
  int c = sx_case (7);
  struct scm *r;
  switch (c)
    {
    case 0: build (); check ("built"); break;
    case 1: /* any history of two stores, other elements undisturbed; another vector untouched */
      {
        build (); if (len > 3) sx_kill ();
        if (!len) { sx_cover ("ok"); sx_done (); }
        struct scm *l = vector_to_list (list_to_vector (l2 (make_number (7), cell_t)));
        struct obj *w = 0;
        for (int o = 0; o < 2; o++) { int i = sx_choice (len); w = m[i] = o ? few () : any (); set (i, w->p); }
        check ("stored");
        sx_assert (l->car->value == 7 && l->cdr->car == cell_t, "other-kept");
        break;
      }
    case 2: /* index range */
      {
        build ();
        long i = sx_u64 ("index");
        sx_assume ((i < 0) | (i >= len));
        if (sx_choice (2)) K_BAD (ref (i)); else K_BAD (set (i, cell_t));
      }
    case 3: /* types */
      S = sx_choice (2);
      V = bad (); len = 1;
      switch (sx_choice (3)) { case 0: K_BAD (ref (0)); case 1: K_BAD (set (0, cell_t)); default: if (S) K_BAD (struct_length (V)); else K_BAD (vector_length (V)); }
    case 4: /* make-vector */
      {
        len = sx_choice (N + 1);
        if (sx_choice (2)) { struct obj *f = any (); for (int i = 0; i < len; i++) m[i] = f; V = make_vector (l2 (make_number (len), f->p)); }
        else { struct obj *f = o_make (ONIL); f->p = cell_unspecified; for (int i = 0; i < len; i++) m[i] = f; V = make_vector (l1 (make_number (len))); }
        check ("make-vector");
        if (len) { int i = sx_choice (len); m[i] = any (); set (i, m[i]->p); check ("make-vector-set"); }
        break;
      }
    case 5: /* a number taken out stays what it was when the vector changes, and vice versa */
      {
        S = 0; len = 2; m[0] = o_make (ONUM); m[1] = o_make (OCHAR);
        V = list_to_vector (l2 (m[0]->p, m[1]->p));
        struct scm *a = ref (0), *b = ref (1), *l = vector_to_list (V);
        struct obj *o0 = m[0], *o1 = m[1];
        m[0] = any (); m[1] = few ();
        set (0, m[0]->p); set (1, m[1]->p);
        sx_assert (o_is (o0, a) && o_is (o1, b) && o_is (o0, l->car) && o_is (o1, l->cdr->car) && o_is (o0, o0->p) && o_is (o1, o1->p), "value-kept");
        check ("stored");
        break;
      }
    case 6: /* two vectors are distinct objects; equal? looks at contents */
      {
        S = 0; len = 2; m[0] = few (); m[1] = few ();
        struct scm *a = list_to_vector (l2 (m[0]->p, m[1]->p));
        struct obj *x = few ();
        V = list_to_vector (l2 (m[0]->p, x->p));
        sx_assert (eq_p (a, V) == cell_f, "vector-eq");
        sx_assert (equal2_p (a, V) == k_bool (o_equal (m[1], x)), "vector-equal");
        struct scm *d = list_to_vector (l1 (m[0]->p));
        sx_assert (equal2_p (a, d) == cell_f && equal2_p (d, a) == cell_f, "vector-equal-length");
        sx_assert (equal2_p (make_vector_ (0, cell_t), make_vector_ (0, cell_t)) == cell_t, "vector-equal-empty");
        m[1] = x; check ("kept");
        break;
      }
    }
  sx_cover ("ok");
  return 0;
}
int sx_main (void) { return k_boot (); }
