/* Scheme programs on the whole interpreter with its Scheme library loaded.  The program is SCRIPT; its inputs are
   symbolic, its results are compared by structure here, not by the interpreter. */
#ifndef ARENA
#define ARENA "3000000"
#endif
#ifndef MSTACK
#define MSTACK "200000"
#endif
#include "kmes.h"
static char id_[100];
static char *k_name (struct scm *s) { long n = s->length; if (n > 90) n = 90; k_copy (id_, cell_bytes (s->string), n); id_[n] = 0; return id_; }
static void k_same (struct scm *a, struct scm *b, char const *id, int depth)
{
  for (;;)
    {
      if (a == b) { sx_assert (1, id); return; }
      if (depth > 200) { sx_fail (id); return; }
      sx_assert (a->type == b->type, id);
      if (a->type != b->type) sx_done ();
      switch (a->type)
        {
        case TNUMBER: case TCHAR: sx_assert (a->value == b->value, id); return;
        case TPAIR: k_same (a->car, b->car, id, depth + 1); a = a->cdr; b = b->cdr; depth++; continue;
        case TVALUES: a = a->cdr; b = b->cdr; depth++; continue;
        case TSTRING: case TKEYWORD: 
          sx_assert (a->length == b->length, id);
          if (a->length != b->length) sx_done ();
          for (long i = 0; i < a->length; i++) sx_assert (cell_bytes (a->string)[i] == cell_bytes (b->string)[i], id);
          return;
        case TVECTOR:
          sx_assert (a->length == b->length, id);
          if (a->length != b->length) sx_done ();
          for (long i = 0; i < a->length; i++) k_same (vector_ref_ (a, i), vector_ref_ (b, i), id, depth + 1);
          return;
        }
      sx_fail (id);     /* symbols and specials are identical or different */
      sx_done ();
    }
}
static struct scm *b_int (struct scm *lo, struct scm *hi) { return make_number (sx_int (lo->value, hi->value, "int")); }
static struct scm *b_char (struct scm *lo, struct scm *hi) { return make_char (sx_int (lo->value, hi->value, "char")); }
static struct scm *b_u64 (void) { return make_number (sx_u64 ("u64")); }
static struct scm *b_choice (struct scm *n) { return make_number (sx_choice (n->value)); }
static struct scm *b_case (struct scm *n) { return make_number (sx_case (n->value)); }
static struct scm *b_string (struct scm *n)
{
  char *b = sx_zmalloc (n->value + 1);
  for (long i = 0; i < n->value; i++) b[i] = sx_int (0, 255, "byte");
  return make_string (b, n->value);
}
static struct scm *b_check (struct scm *id, struct scm *a, struct scm *b)
{
  k_same (a, b, k_name (id), 0);
  return cell_unspecified;
}
static struct scm *b_assert (struct scm *id, struct scm *x) { sx_assert (x != cell_f, k_name (id)); if (x == cell_f) sx_done (); return cell_unspecified; }
static struct scm *b_cover (struct scm *id) { sx_cover (k_name (id)); return cell_unspecified; }
static struct scm *b_fail (struct scm *id) { sx_fail (k_name (id)); sx_done (); return cell_unspecified; }
static struct scm *b_done (void) { sx_done (); return cell_unspecified; }
static struct scm *b_kill (void) { sx_kill (); return cell_unspecified; }
static struct scm *b_error (void) { k_expect_error = 1; return cell_unspecified; }
static struct scm *b_exit (struct scm *n) { k_exit_ok = n->value; return cell_unspecified; }
static struct scm *b_out (struct scm *fd) { long n = k_outn[fd->value]; k_out[fd->value][n] = 0; k_outn[fd->value] = 0; return make_string (k_out[fd->value], n); }
extern long g_stack;
static struct scm *b_stack (void) { return make_number (g_stack); }
#ifndef DEEP
#define DEEP 0
#endif
static struct scm *b_deep (struct scm *a, struct scm *b) { return DEEP ? b : a; }
static struct scm *b_print (struct scm *x) { sx_print ("value", x->value); return x; }
#ifdef K_MORE
static void k_more (void);
#endif
static void k_builtins (void)
{
  k_builtin ("sx-int", 2, b_int);
  k_builtin ("sx-char", 2, b_char);
  k_builtin ("sx-u64", 0, b_u64);
  k_builtin ("sx-choice", 1, b_choice);
  k_builtin ("sx-case", 1, b_case);
  k_builtin ("sx-string", 1, b_string);
  k_builtin ("sx-check", 3, b_check);
  k_builtin ("sx-assert", 2, b_assert);
  k_builtin ("sx-cover", 1, b_cover);
  k_builtin ("sx-fail", 1, b_fail);
  k_builtin ("sx-done", 0, b_done);
  k_builtin ("sx-kill", 0, b_kill);
  k_builtin ("sx-expect-error", 0, b_error);
  k_builtin ("sx-expect-exit", 1, b_exit);
  k_builtin ("sx-out", 1, b_out);
  k_builtin ("sx-print", 1, b_print);
  k_builtin ("sx-deep", 2, b_deep);
  k_builtin ("sx-stack", 0, b_stack);
#ifdef K_MORE
  k_more ();
#endif
}
#ifndef REPO
#define REPO "/repo"
#endif
static int k_scm (char const *file)
{
  char *av[] = { "mes", "--no-auto-compile", "-s", (char *) file, 0 };
  char *ev[] = { "MES_PREFIX=" REPO, "GUILE_LOAD_PATH=" REPO "/module:" REPO "/mes", "MES_ARENA=" ARENA, "MES_MAX_ARENA=" ARENA, "MES_STACK=" MSTACK, "HOME=/home", 0 };
  k_init ();
  return main (4, av, ev);
}
