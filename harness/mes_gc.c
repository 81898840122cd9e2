/* Garbage collection: any graph of objects of every type, reachable from any root, is the same graph after collections at
   any time, and the room of what is unreachable becomes free. */
#define K_CATCH_ERROR 1
#include "kmes.h"
#ifndef DEEP
#define DEEP 0
#endif
struct scm *values (struct scm *x);
struct scm *make_closure_ (struct scm *args, struct scm *body, struct scm *a);
struct scm *make_variable_ (struct scm *var);
static void k_builtins (void) { k_builtin ("sx-run", 0, k_run_); }
enum { GPAIR, GVEC, GSTRUCT, GSTR, GSYM, GKEY, GVAL, GCLO, GVAR, GPORT, GMACRO, GNUM, GCHAR, GHASH, GCONT, NKIND };
#define K 3
static struct { int kind, n, a, d; long v, w; struct scm *p; char text[20]; } g[K + 1];
static struct scm *at (int i) { return i < 0 ? cell_nil : g[i].p; }
static int by_value (int i) { return g[i].kind == GNUM || g[i].kind == GCHAR; }
static void make (int i)
{
  static int len[] = { 0, 7, 8, 9, 16, 17 };
  struct scm *s;
  switch (g[i].kind)
    {
    case GPAIR: g[i].p = cons (cell_f, cell_f); return;
    case GVEC: g[i].p = make_vector_ (2, cell_f); return;
    case GSTRUCT: g[i].p = make_struct (cell_symbol_record_type, l2 (at (i - 1), cell_f), at (i - 1)); return;
    case GSTR: case GSYM: case GKEY: case GPORT:
      g[i].n = g[i].kind == GSTR ? len[sx_choice (6)] : 5 + i;
      for (int j = 0; j < g[i].n; j++) g[i].text[j] = 'a' + j;
      if (g[i].kind != GSTR) g[i].text[1] = '0' + i;
      else if (g[i].n) { g[i].v = sx_int (0, 255, "byte"); g[i].text[0] = g[i].v; g[i].w = sx_int (0, 255, "byte"); g[i].text[g[i].n - 1] = g[i].w; }
      s = make_string (g[i].text, g[i].n);
      g[i].p = g[i].kind == GSTR ? s : g[i].kind == GSYM ? string_to_symbol (s) : g[i].kind == GKEY ? symbol_to_keyword (string_to_symbol (s)) : make_string_port (s);
      g[i].v = g[i].kind == GPORT ? g[i].p->port : 0;
      return;
    case GVAL: g[i].p = values (l2 (at (i - 1), cell_t)); return;
    case GCLO: g[i].p = make_closure_ (at (i - 1), cell_nil, cell_t); return;
    case GVAR: g[i].p = make_variable_ (cons (at (i - 1), cell_t)); return;
    case GMACRO: g[i].p = make_macro (cstring_to_symbol ("mac"), at (i - 1)); return;
    case GNUM: g[i].v = sx_u64 ("number"); g[i].p = make_number (g[i].v); return;
    case GCHAR: g[i].v = sx_int (0, 255, "char"); g[i].p = make_char (g[i].v); return;
    case GHASH: g[i].p = make_hash_table_ (2); hashq_set_x (g[i].p, cstring_to_symbol ("key"), at (i - 1)); return;
    case GCONT: g[i].v = sx_int (0, 100, "id"); g[i].p = make_value_cell (TCONTINUATION, g[i].v, 0); s = make_vector_ (2, at (i - 1)); g[i].p->continuation = s; return;
    }
}
static void link_ (int i)
{
  if (g[i].kind == GPAIR) { set_car_x (g[i].p, at (g[i].a)); set_cdr_x (g[i].p, at (g[i].d)); }
  if (g[i].kind == GVEC) { vector_set_x_ (g[i].p, 0, at (g[i].a)); vector_set_x_ (g[i].p, 1, at (g[i].d)); }
}
static int seen[K + 1];
#define ASS(c, id) do { int c_ = (c); sx_assert (c_, id); } while (0)
static void is (int i, struct scm *p);
static void child (int i, struct scm *p) { if (i < 0) ASS (p == cell_nil, "nil"); else is (i, p); }
static void text (int i, struct scm *b)
{
  ASS (b->type == TBYTES, "bytes");
  char *q = cell_bytes (b);
  for (int j = 0; j < g[i].n; j++) sx_assert (q[j] == g[i].text[j], "text");
  ASS (q[g[i].n] == 0, "terminator");
}
static void is (int i, struct scm *p)
{
  static int type[] = { TPAIR, TVECTOR, TSTRUCT, TSTRING, TSYMBOL, TKEYWORD, TVALUES, TCLOSURE, TVARIABLE, TPORT, TMACRO, TNUMBER, TCHAR, TSTRUCT, TCONTINUATION };
  if (p->type != type[g[i].kind]) sx_fail ("type");
  if (by_value (i)) { sx_assert (p->value == g[i].v, "value"); return; }
  if (seen[i]) { ASS (p == g[i].p, "identity"); return; }
  for (int j = 0; j < K; j++) if (j != i && seen[j] && !by_value (j)) ASS (g[j].p != p, "distinct");
  seen[i] = 1;
  g[i].p = p;
  switch (g[i].kind)
    {
    case GPAIR: child (g[i].a, p->car); child (g[i].d, p->cdr); return;
    case GVEC: ASS (p->length == 2, "length"); child (g[i].a, vector_ref_ (p, 0)); child (g[i].d, vector_ref_ (p, 1)); return;
    case GSTRUCT:
      ASS (p->length == 4 && struct_ref_ (p, 0) == cell_symbol_record_type && struct_ref_ (p, 3) == cell_f, "struct");
      child (i - 1, struct_ref_ (p, 1)); child (i - 1, struct_ref_ (p, 2)); return;
    case GSTR: ASS (p->length == g[i].n, "length"); text (i, p->string); return;
    case GSYM: ASS (p->length == g[i].n, "length"); text (i, p->string); ASS (string_to_symbol (make_string (g[i].text, g[i].n)) == p, "interned"); return;
    case GKEY: ASS (p->length == g[i].n, "length"); text (i, p->string); return;
    case GPORT: ASS (p->port == g[i].v, "port"); ASS (p->string->type == TSTRING && p->string->length == g[i].n, "port-string"); text (i, p->string->string); return;
    case GVAL: child (i - 1, p->cdr->car); ASS (p->cdr->cdr->car == cell_t && p->cdr->cdr->cdr == cell_nil, "values"); return;
    case GCLO: p = p->cdr; ASS (p->car->car == cell_circular && p->car->cdr == cell_t && p->cdr->cdr == cell_nil, "closure"); child (i - 1, p->cdr->car); return;
    case GVAR: ASS (p->variable->cdr == cell_t, "variable"); child (i - 1, p->variable->car); return;
    case GMACRO: { char *b = cell_bytes (p->cdr); ASS (b[0] == 'm' && b[1] == 'a' && b[2] == 'c' && b[3] == 0, "macro-name"); child (i - 1, p->macro); return; }
    case GHASH: child (i - 1, hashq_ref (p, cstring_to_symbol ("key"), cell_nil)); ASS (hashq_ref (p, cstring_to_symbol ("other"), cell_f) == cell_f, "absent"); return;
    case GCONT: sx_assert (p->length == g[i].v, "continuation"); p = p->continuation; ASS (p->type == TVECTOR && p->length == 2, "continuation"); child (i - 1, vector_ref_ (p, 0)); child (i - 1, vector_ref_ (p, 1)); return;
    }
}
static void waste (int n) { for (int i = 0; i < n; i++) make_string ("garbage garbage garbage", 3 + i % 19); }
/* the roots */
enum { IR0, IR1, IR2, IR3, IFRAME, IGLOBAL, ISPECIAL, NROOT };
static int root; static struct scm *key;
static void put (struct scm *p)
{
  R0 = R1 = R2 = R3 = cell_nil;
  switch (root)
    {
    case IR0: R0 = p; return;
    case IR1: R1 = p; return;
    case IR2: R2 = p; return;
    case IR3: R3 = p; return;
    case IFRAME: R1 = p; gc_push_frame (); R1 = cell_nil; gc_push_frame (); return;
    case IGLOBAL: module_define_x (M0, cstring_to_symbol ("sx-global"), p); return;
    case ISPECIAL: hashq_set_x (g_macros, cstring_to_symbol ("sx-macro"), p); return;
    }
}
static struct scm *get (void)
{
  switch (root)
    {
    case IR0: return R0;
    case IR1: return R1;
    case IR2: return R2;
    case IR3: return R3;
    case IFRAME: return g_stack_array[g_stack + GC_FRAME_SIZE + 2];
    case IGLOBAL: return module_ref (M0, cstring_to_symbol ("sx-global"));
    default: return hashq_ref (g_macros, cstring_to_symbol ("sx-macro"), cell_nil);
    }
}
static void verify (void)
{
  struct scm *p = get ();
  for (int i = 0; i < K; i++) seen[i] = 0;
  ASS (p->type == TPAIR, "root");
  is (K - 1, p->car);
  ASS (p->cdr->type == TPAIR, "root");
  is (0, p->cdr->car);
  /* the interpreter's own objects */
  ASS (cell_nil->type == TSPECIAL && cell_t->type == TSPECIAL && cell_f->type == TSPECIAL && cell_symbol_lambda->type == TSYMBOL, "special");
  ASS (cstring_to_symbol ("lambda") == cell_symbol_lambda && cstring_to_symbol ("car")->type == TSYMBOL, "predefined");
  ASS (module_ref (M0, cstring_to_symbol ("cons"))->type == TSTRUCT, "builtin");
}
static struct scm *k_run (void)
{
  int c = sx_case (NKIND * 2 + 1);
  if (c == NKIND * 2)           /* live data that fill the reserve: an error, or nothing lost */
    {
      static int sizes[] = { 10, 1000, 2000, 2500, 3000, 3500, 4000, 5000, 6000 };
      int n = sizes[sx_choice (9)];
      struct scm *l = cell_nil;
      k_expect_error = 1;
      for (int i = 0; i < n; i++) l = cons (make_number (i), l);
      R1 = l; R0 = R2 = R3 = cell_nil;
      for (int i = 0; i < 40; i++) { R1 = make_number (i); gc_push_frame (); }
      R1 = l;
      long top = g_stack;
      for (int k = 0; k < 3; k++)
        {
          while (gc_free () + GC_SAFETY < ARENA_SIZE) make_number (7);
          gc_check ();
          l = R1;
          for (int i = n - 1; i >= 0; i--) { if (l->type != TPAIR || l->car->type != TNUMBER || l->car->value != i) sx_fail ("lost"); l = l->cdr; }
          ASS (l == cell_nil, "lost");
          ASS (g_stack == top, "stack-depth");
          for (int i = 0; i < 40; i++) { struct scm *x = g_stack_array[g_stack + i * GC_FRAME_SIZE + 2]; if (x->type != TNUMBER || x->value != 39 - i) sx_fail ("stack"); }
          ASS (module_ref (M0, cstring_to_symbol ("cons"))->type == TSTRUCT, "builtin");
        }
      sx_cover (n < 2000 ? "kept" : "full");
      sx_done ();
    }
  g[0].kind = c / 2;
  root = c % 2 ? IR1 : sx_choice (NROOT);
  for (int i = 1; i < K; i++) g[i].kind = c % 2 ? sx_choice (i == 1 ? 3 : GNUM + 1) : i == 2 ? GPAIR : sx_choice (2);
  waste (3);
  for (int i = 0; i < K; i++)
    {
      make (i);
      waste (i + 1);
      g[i].a = i - 1; g[i].d = i == K - 1 ? 0 : i;
      if (g[i].kind <= GVEC && !(c % 2 && i == 2))
        {
          int k = sx_choice (K + 1) - 1;
          if (i == 1) g[i].d = k; else g[i].a = k;
          if (DEEP) { k = sx_choice (K + 1) - 1; if (i == 1) g[i].a = k; else g[i].d = k; }
        }
    }
  for (int i = 0; i < K; i++) link_ (i);
  put (l2 (at (K - 1), at (0)));
  waste (5);
  long stack = g_stack;
  gc ();
  ASS (g_stack == stack, "stack");
  verify ();
  /* the collected objects can be used and changed */
  if (g[K - 1].kind == GPAIR) { g[K - 1].a = 0; set_car_x (g[K - 1].p, get ()->cdr->car); verify (); }
  waste (9);
  gc ();
  verify ();
  gc ();
  long live = gc_free ();
  for (int i = 0; i < 30; i++) cons (make_number (i), make_string0 ("unreachable"));
  ASS (gc_free () > live, "allocated");
  gc ();
  ASS (gc_free () == live, "reclaimed");
  verify ();
  sx_cover ("graph");
  return cell_unspecified;
}
int sx_main (void) { return k_boot (); }
