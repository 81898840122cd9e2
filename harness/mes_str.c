/* Strings, symbols, keywords and hash tables. */
#define K_CATCH_ERROR 1
#define MAXSTR "40"
#include "kmes.h"
#ifndef N
#define N 3
#endif
struct scm *bytes_to_list (char const *s, size_t i);
static void k_builtins (void) { k_builtin ("sx-run", 0, k_run_); }
static char b[4][64]; static long n[4]; static struct scm *s[4];
/* any string of up to M bytes, zero bytes included */
static void str (int i, int m)
{
  n[i] = sx_choice (m + 1);
  for (int j = 0; j < n[i]; j++) b[i][j] = sx_int (0, 255, "byte");
  b[i][n[i]] = 0;
  s[i] = make_string (b[i], n[i]);
}
/* X is a string holding the K bytes at P, terminated */
static void is_str (struct scm *x, char const *p, long k, char const *id)
{
  sx_assert (x->type == TSTRING, id);
  sx_assert (x->length == k, id);
  sx_assert (x->string->type == TBYTES && x->string->length > k, id);
  char const *q = cell_bytes (x->string);
  for (int j = 0; j < k; j++) sx_assert (q[j] == p[j], id);
  sx_assert (q[k] == 0, id);
}
static int same (int i, int j)
{
  if (n[i] != n[j]) return 0;
  int r = 1;
  for (int k = 0; k < n[i]; k++) r &= b[i][k] == b[j][k];
  return r;
}
static struct scm *bad (void)
{
  switch (sx_choice (4)) { case 0: return make_number (sx_u64 ("n")); case 1: return cell_nil; case 2: return cstring_to_symbol ("x"); default: return make_char (65); }
}
/* names without zero bytes */
static void name (int i, int lo, int hi)
{
  n[i] = lo + sx_choice (hi - lo + 1);
  for (int j = 0; j < n[i]; j++) b[i][j] = sx_int (1, 255, "byte");
  b[i][n[i]] = 0;
  s[i] = make_string (b[i], n[i]);
}
/* names for the symbol table: the bytes that determine the bucket from a small set with collisions, the others free */
static int s_few;
static void sname (int i, int hi)
{
  static int c0[] = { 48, 91, 97, 200 }, c1[] = { 112, 75, 98 };
  n[i] = hi ? 1 + sx_choice (hi) : 1;
  b[i][0] = hi ? c0[sx_choice (s_few ? 2 : 4)] : 'a';
  if (n[i] > 1) b[i][1] = c1[sx_choice (s_few ? 2 : 3)];
  for (int j = 2; j < n[i]; j++) b[i][j] = sx_int (1, 255, "byte");
  b[i][n[i]] = 0;
  s[i] = make_string (b[i], n[i]);
}
static struct scm *k_run (void)
{
  static int m0[] = { 0, 1, 2, 3, 4, 5, 6, 13, 12 }, m1[] = { 7, 8, 9, 10, 11, 12 };
  int c = PART ? m1[sx_case (6)] : m0[sx_case (9)];
  struct scm *r;
  switch (c)
    {
    case 0: /* construction, length, elements */
      str (0, N);
      is_str (s[0], b[0], n[0], "make-string");
      r = string_length (s[0]);
      sx_assert (r->type == TNUMBER && r->value == n[0], "string-length");
      for (int j = 0; j < n[0]; j++)
        {
          r = string_ref (s[0], make_number (j));
          sx_assert (r->type == TCHAR, "string-ref");
          sx_assert (r->value == (b[0][j] & 255), "string-ref");
        }
      break;
    case 1: /* lists of characters */
      {
        str (0, N);
        r = string_to_list (s[0]);
        struct scm *l = r;
        for (int j = 0; j < n[0]; j++)
          {
            sx_assert (l->type == TPAIR && l->car->type == TCHAR, "string->list");
            sx_assert (l->car->value == (b[0][j] & 255), "string->list");
            l = l->cdr;
          }
        sx_assert (l == cell_nil, "string->list-end");
        is_str (list_to_string (r), b[0], n[0], "list->string");
        is_str (s[0], b[0], n[0], "string-kept");
        break;
      }
    case 2: /* append */
      {
        int k = sx_choice (4); struct scm *l = cell_nil; long m = 0; char *o = b[3];
        for (int i = 0; i < k; i++) { str (i, 2); for (int j = 0; j < n[i]; j++) o[m++] = b[i][j]; }
        for (int i = k - 1; i >= 0; i--) l = cons (s[i], l);
        r = string_append (l);
        is_str (r, o, m, "string-append");
        for (int i = 0; i < k; i++) { is_str (s[i], b[i], n[i], "string-kept"); sx_assert (r != s[i], "string-append-fresh"); }
        break;
      }
    case 3: /* equality */
      str (0, N); str (1, N);
      sx_assert (string_equal_p (s[0], s[1]) == k_bool (same (0, 1)), "string=?");
      sx_assert (string_equal_p (s[1], s[0]) == k_bool (same (0, 1)), "string=?");
      sx_assert (equal2_p (s[0], s[1]) == k_bool (same (0, 1)), "equal");
      sx_assert (eq_p (s[0], s[1]) == cell_f && eq_p (s[0], s[0]) == cell_t, "eq");
      break;
    case 4: /* index range */
      {
        str (0, 2);
        long i = sx_u64 ("index");
        sx_assume ((i < 0) | (i >= n[0]));
        K_BAD (string_ref (s[0], make_number (i)));
      }
    case 5: /* types */
      str (0, 2);
      switch (sx_choice (5))
        {
        case 0: K_BAD (string_length (bad ())); case 1: K_BAD (string_ref (bad (), make_number (0)));
        case 2: K_BAD (string_append (l2 (s[0], bad ()))); case 3: K_BAD (string_append (l2 (bad (), s[0])));
        default: K_BAD (string_ref (s[0], cell_nil));
        }
    case 6: /* strings up to the configured limit, and errors beyond it */
      {
        long k = MAX_STRING - 2 + sx_choice (6);
        static char big[100];
        sx_assert (MAX_STRING == 40, "max-string");
        for (int j = 0; j < k; j++) big[j] = sx_int (0, 255, "byte");
        int w = sx_choice (3);
        if (w == 0)
          {
            struct scm *l = bytes_to_list (big, k);
            if (k > MAX_STRING) K_BAD (list_to_string (l));
            is_str (list_to_string (l), big, k, "long-list->string");
          }
        else if (w == 1)
          {
            struct scm *x = make_string (big, 20), *y = make_string (big + 20, k - 20);
            if (k > MAX_STRING) K_BAD (string_append (l2 (x, y)));
            is_str (string_append (l2 (x, y)), big, k, "long-append");
          }
        else
          {
            if (k > MAX_STRING) K_BAD (make_string (big, k));
            is_str (make_string (big, k), big, k, "long-make");
          }
        break;
      }
    case 7: /* symbols are interned by their name */
      {
        if (sx_choice (8)) { sname (0, 3); sname (1, N); } else { name (0, 1, 1); name (1, 1, 1); n[1] = 0; for (int j = 0; j < 3; j++) b[1][n[1]++] = 'c'; s[1] = make_string (b[1], 3); }
        struct scm *x = string_to_symbol (s[0]), *y = string_to_symbol (s[1]);
        sx_assert (x->type == TSYMBOL || x->type == TSPECIAL, "symbol");
        sx_assert ((x == y) == same (0, 1), "intern");
        sx_assert (eq_p (x, y) == k_bool (same (0, 1)), "intern-eq");
        is_str (symbol_to_string (x), b[0], n[0], "symbol->string");
        is_str (symbol_to_string (y), b[1], n[1], "symbol->string");
        sx_assert (string_to_symbol (make_string (b[0], n[0])) == x, "intern-again");
        is_str (s[0], b[0], n[0], "string-kept");
        break;
      }
    case 8: /* keywords */
      {
        sname (0, 3); sname (1, 3);
        struct scm *x = symbol_to_keyword (string_to_symbol (s[0])), *y = symbol_to_keyword (string_to_symbol (s[1]));
        sx_assert (x->type == TKEYWORD && y->type == TKEYWORD, "keyword");
        sx_assert (eq_p (x, y) == k_bool (same (0, 1)), "keyword-eq");
        sx_assert (equal2_p (x, y) == k_bool (same (0, 1)), "keyword-equal");
        is_str (keyword_to_string (x), b[0], n[0], "keyword->string");
        sx_assert (eq_p (x, string_to_symbol (s[0])) == cell_f && eq_p (x, s[0]) == cell_f, "keyword-distinct");
        break;
      }
    case 9: /* predefined symbols and the special constants */
      sx_assert (cstring_to_symbol ("lambda") == cell_symbol_lambda && cstring_to_symbol ("quote") == cell_symbol_quote && cstring_to_symbol ("car") == cell_symbol_car
                 && cstring_to_symbol ("define") == cell_symbol_define && cstring_to_symbol ("if") == cell_symbol_if, "builtin-symbol");
      { char const *nm[] = { "lambda", "begin", "if", "quote", "define", "set!", "quasiquote", "unquote", "unquote-splicing", "call-with-values", "boot-module", "%argv" };
        for (int i = 0; i < 12; i++)
          {
            is_str (symbol_to_string (cstring_to_symbol (nm[i])), nm[i], strlen (nm[i]), "builtin-name");
            for (int j = 0; j < 12; j++) sx_assert ((cstring_to_symbol (nm[i]) == cstring_to_symbol (nm[j])) == (i == j), "builtin-distinct");
          } }
      break;
    case 10: /* hash tables with string keys, as a map */
      {
        int ops = 3; struct scm *h = make_hash_table_ (sx_choice (2) ? 1 : 3); long val[4]; int key[4];
        s_few = 1; sname (0, 3); sname (1, 2); sname (2, 0);
        for (int o = 0; o < ops; o++)
          {
            key[o] = sx_choice (3); val[o] = sx_u64 ("value");
            hash_set_x (h, make_string (b[key[o]], n[key[o]]), make_number (val[o]));
          }
        for (int k = 0; k < 3; k++)
          {
            int at = -1;
            for (int o = 0; o < ops; o++) at = sx_select (same (key[o], k), o, at);
            struct scm *d = cons (cell_nil, cell_nil);
            r = hash_ref (h, s[k], d);
            at = sx_concrete (at);
            if (at < 0) sx_assert (r == d, "hash-ref-default");
            else { sx_assert (r->type == TNUMBER, "hash-ref"); sx_assert (r->value == val[at], "hash-ref"); }
          }
        break;
      }
    case 11: /* symbol keys */
      {
        s_few = 1; struct scm *h = make_hash_table_ (1 + sx_choice (3)); struct scm *y[3]; int key[3];
        sname (0, 2); sname (1, 2); sname (2, 0);
        for (int i = 0; i < 3; i++) y[i] = string_to_symbol (s[i]);
        struct scm *v[3];
        for (int o = 0; o < 3; o++) { key[o] = sx_choice (3); v[o] = o == 1 ? cell_f : cons (cell_t, cell_nil); hashq_set_x (h, y[key[o]], v[o]); }
        for (int k = 0; k < 3; k++)
          {
            struct scm *d = make_number (5), *w = d;
            for (int o = 0; o < 3; o++) if (y[key[o]] == y[k]) w = v[o];
            sx_assert (hashq_ref (h, y[k], d) == w, "hashq-ref");
            struct scm *g = hashq_get_handle (h, y[k], cell_f);
            if (w == d) sx_assert (g == cell_f, "handle-none");
            else sx_assert (g->type == TPAIR && g->car == y[k] && g->cdr == w, "handle");
          }
        break;
      }
    case 12: /* C strings and byte lists */
      {
        if (sx_choice (2)) sname (0, N); else { name (0, 0, 1); }
        is_str (make_string0 (b[0]), b[0], n[0], "make-string0");
        is_str (list_to_string (cstring_to_list (b[0])), b[0], n[0], "cstring->list");
        struct scm *y = n[0] ? cstring_to_symbol (b[0]) : 0;
        if (y) sx_assert (y == string_to_symbol (s[0]), "cstring->symbol");
        break;
      }
    case 13:
      K_BAD (list_to_string (l2 (make_char (65), cons (make_char (66), make_char (67))) -> cdr -> cdr == cell_nil ? cons (make_char (65), make_char (66)) : cell_t));
    }
  sx_cover ("ok");
  return 0;
}
int sx_main (void) { return k_boot (); }
