/* The printer and the reader: external representations, and reading them back. */
#define K_CATCH_ERROR 1
#include "kmes.h"
#include "objs.h"
#ifndef NB
#define NB 3
#endif
static void k_builtins (void) { k_builtin ("sx-run", 0, k_run_); }
#if PART
/* which bucket a name falls in is not this property's subject: a cheap one for the solver */
int SX_OVERRIDE (hash_cstring) (char const *s, long size) { long n = k_slen (s); return n % size; }
#endif
/* ---- text under construction */
static char T[600]; static long tn;
static void tc (int c) { T[tn++] = c; }
static void ts (char const *s) { while (*s) tc (*s++); }
static void tnum (unsigned long u) { if (u >= 10) tnum (u / 10); tc ('0' + u % 10); }
static struct { char const *n; int c; } cname[] = { { "nul", 0 }, { "alarm", 7 }, { "backspace", 8 }, { "tab", 9 }, { "newline", 10 }, { "vtab", 11 }, { "page", 12 }, { "return", 13 }, { "space", 32 } };
static char const *hexd = "0123456789abcdef";
static void tstrc (int c)
{
  char const *f = "\0a\ab\bt\tn\nv\vf\f", *p = 0;
  switch (c) { case 0: ts ("\\0"); return; case 7: ts ("\\a"); return; case 8: ts ("\\b"); return; case 9: ts ("\\t"); return; case 10: ts ("\\n"); return;
    case 11: ts ("\\v"); return; case 12: ts ("\\f"); return; case 13: ts ("\\r"); return; case 27: ts ("\\e"); return; case '\\': ts ("\\\\"); return; case '"': ts ("\\\""); return; }
  tc (c);
}
static char const *symname (struct obj *o) { return o->kind == OSYM ? "abc" : "abd"; }
/* objects: beyond objs.h, strings and symbols with any text */
static char sbuf[16][8]; static int slen[16], sn;
enum { OSTRN = 20, OSYMN };
static char const *names[] = { "a", "-", "+", "...", "a.b", "1+", "-x", "->b", "x1", "A", "<=?", "a:b", "*", "|", "a'b", "a,b", "a#b", ".a", "+1b", "-1+", "!" };
static struct obj *mk (int k)
{
  if (k < OSTRN) return o_make (k);
  struct obj *o = o_new (k);
  if (k == OSYMN) { o->v = sx_choice (sizeof names / sizeof *names); o->p = cstring_to_symbol (names[o->v]); return o; }
  o->n = sn++;
  int n = slen[o->n] = sx_choice (3);
  for (int i = 0; i < n; i++) sbuf[o->n][i] = sx_int (0, 255, "byte");
  o->p = make_string (sbuf[o->n], n);
  return o;
}
static struct obj *small (void) { static int k[] = { ONUM, OSYM, OSTR, ONIL, OCHAR, OTRUE }; struct obj *o = o_new (k[sx_choice (6)]);
  switch (o->kind) { case ONUM: o->v = -5; o->p = make_number (-5); break; case OSTR: o->v = 'b'; o->p = make_string ("kb", 2); break; case OCHAR: o->v = ')'; o->p = make_char (')'); break;
    case OSYM: o->p = cstring_to_symbol ("abc"); break; case ONIL: o->p = cell_nil; break; default: o->p = cell_t; }
  return o; }
static void text (struct obj *o, int w)
{
  int i;
  switch (o->kind)
    {
    case ONUM: if (o->v < 0) { tc ('-'); tnum (- (unsigned long) o->v); } else tnum (o->v); break;
    case OCHAR:
      if (!w) { tc (o->v); break; }
      ts ("#\\");
      for (i = 0; i < 9; i++) if (cname[i].c == o->v) { ts (cname[i].n); return; }
      if (o->v > 32 && o->v < 127) tc (o->v);
      else { tc ('x'); if (o->v >= 16) tc (hexd[o->v >> 4]); tc (hexd[o->v & 15]); }
      break;
    case OSYM: case OSYM2: ts (symname (o)); break;
    case OSYMN:
      for (char const *p = names[o->v]; *p; p++) tc (*p);
      break;
    case ONIL: ts ("()"); break;
    case OTRUE: ts ("#t"); break;
    case OFALSE: ts ("#f"); break;
    case OSTR: if (w) tc ('"'); tc ('k'); if (w) tstrc (o->v); else tc (o->v); if (w) tc ('"'); break;
    case OSTRN: if (w) tc ('"'); for (i = 0; i < slen[o->n]; i++) if (w) tstrc (sbuf[o->n][i] & 255); else tc (sbuf[o->n][i]); if (w) tc ('"'); break;
    case OKEY: ts ("#:k"); tc (o->v); break;
    case OPAIR:
      tc ('('); text (o->a, w);
      for (o = o->d; o->kind == OPAIR; o = o->d) { tc (' '); text (o->a, w); }
      if (o->kind != ONIL) { ts (" . "); text (o, w); }
      tc (')');
      break;
    case OVEC: ts ("#("); for (i = 0; i < o->n; i++) { if (i) tc (' '); text (o->e[i], w); } tc (')'); break;
    }
}
static int is (struct obj *o, struct scm *p)
{
  if (o->kind == OSTRN)
    {
      if (p->type != TSTRING || p->length != slen[o->n]) return 0;
      int r = 1;
      for (int i = 0; i < slen[o->n]; i++) r &= cell_bytes (p->string)[i] == sbuf[o->n][i];
      return r;
    }
  if (o->kind == OPAIR) return p->type == TPAIR && is (o->a, p->car) && is (o->d, p->cdr);
  if (o->kind == OVEC)
    {
      if (p->type != TVECTOR || p->length != o->n) return 0;
      for (int i = 0; i < o->n; i++) if (!is (o->e[i], vector_ref_ (p, i))) return 0;
      return 1;
    }
  return o_is (o, p);
}
/* ---- shapes */
static struct obj *vec (int n, struct obj *(*f) (void))
{
  struct obj *o = o_new (OVEC);
  o->n = n;
  struct scm *l = cell_nil;
  for (int i = 0; i < n; i++) o->e[i] = f ();
  for (int i = n - 1; i >= 0; i--) l = cons (o->e[i]->p, l);
  o->p = list_to_vector (l);
  return o;
}
static struct obj *tail (int n, struct obj *t) { for (; n; n--) t = o_pair (small (), t); return t; }
static struct obj *shape (int d)
{
  switch (sx_choice (d ? 4 : 1))
    {
    case 0: return small ();
    case 1: return o_pair (shape (d - 1), o_make (ONIL));
    case 2: { struct obj *a = shape (d - 1); return o_pair (a, shape (d - 1)); }
    default: return vec (sx_choice (3), small);
    }
}
static struct obj *num (void)
{
  static long v[] = { 0, 7, -1, 42, 99999, -65536, 2147483647, -2147483648L, 2147483648L, 4294967296L, 9223372036854775807L, -9223372036854775807L - 1, 1000000000000L, -10 };
  struct obj *o = o_new (ONUM);
  int k = sx_choice (15);
  o->v = k < 14 ? v[k] : sx_choice (231) - 115;
  o->p = make_number (o->v);
  return o;
}
/* ---- input */
static struct scm *old_in;
static void open_text (int how)
{
  struct scm *p;
  if (how) { k_file ("text", T, tn); p = open_input_file (make_string0 ("text")); }
  else p = open_input_string (make_string (T, tn));
  old_in = set_current_input_port (p);
}
static void at_end (void) { sx_assert (readchar () == -1, "rest-of-input"); }
/* layout between tokens */
static int g_at = -1, g_n;
static void gap (int need)
{
  if (g_at >= 0 && g_n++ != g_at) { if (need) tc (' '); return; }
  switch (sx_choice (need ? 7 : 8))
    {
    case 0: tc (' '); break;
    case 1: tc ('\n'); break;
    case 2: tc ('\t'); tc (13); break;
    case 3: ts (" ;) (c\n"); break;
    case 4: ts (" #|x)|# "); break;
    case 5: ts (" #;(q r) "); break;
    case 6: ts ("\f#! ;x !#"); break;
    default: break;
    }
}
static void check_out (struct obj *o, int w)
{
  sx_assert (k_outn[1] == tn, "text-length");
  for (long i = 0; i < tn; i++) sx_assert (k_out[1][i] == T[i], "text");
}
static void round_trip (struct obj *o, int how)
{
  T[tn] = 0;
  open_text (how);
  struct scm *r = read_env (cell_nil);
  sx_assert (is (o, r), "round-trip");
  at_end ();
  sx_assert (is (o, o->p), "object-kept");
}
static struct scm *k_run (void)
{
  static int m0[] = { 0, 1, 2, 3, 4, 5 }, m1[] = { 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16 };
  int c = PART ? m1[sx_case (11)] : m0[sx_case (6)];
  struct obj *o = 0; int w = 1;
  switch (c)
    {
    case 0: o = num (); break;
    case 1: o = mk (OCHAR); break;
    case 2: o = mk (OSTRN); break;
    case 3: o = sx_choice (8) ? mk (OSYMN) : sx_choice (2) ? o_make (OTRUE) : o_make (OFALSE); break;
    case 4: o = shape (2); break;
    case 5: { int n = 1 + sx_choice (12); o = sx_choice (2) ? o_make (ONIL) : o_make (OSYM); struct obj *e = small (); for (; n; n--) o = o_pair (n & 1 ? e : n == 4 ? o_pair (e, o_make (ONIL)) : e, o); }
      if (sx_choice (2)) { int n = 1 + sx_choice (9); for (; n; n--) o = o_pair (o, o_make (ONIL)); } break;
    }
  if (o)
    {
      w = sx_choice (2);
      text (o, w);
      if (sx_choice (2)) { if (w) write_ (o->p); else display_ (o->p); }
      else { if (w) write_port_ (o->p, make_number (1)); else display_port_ (o->p, make_number (1)); }
      check_out (o, w);
      if (w) round_trip (o, sx_choice (2));
      sx_cover ("ok"); sx_done ();
    }
  switch (c)
    {
    case 6: /* layout and comments around and inside data */
      {
        int how = sx_choice (2);
        gap (0); tc ('('); gap (0); ts ("abc"); gap (1); ts ("\"kb\""); gap (0); ts (")"); 
        struct obj *s = o_new (OSTR); s->v = 'b'; s->p = make_string ("kb", 2);
        o = o_pair (o_make (OSYM), o_pair (s, o_make (ONIL)));
        open_text (how);
        sx_assert (is (o, read_env (cell_nil)), "layout");
        at_end ();
        break;
      }
    case 7: /* dotted tails, vectors, nested, with layout */
      {
        struct obj *a = small (), *b = small ();
        int sh = sx_choice (4);
        g_at = sx_choice (sh == 0 ? 4 : sh == 1 ? 3 : sh == 2 ? 1 : 2);
        if (sh == 0) { o = o_pair (a, b); tc ('('); gap (0); text (a, 1); gap (1); tc ('.'); gap (1); text (b, 1); gap (0); tc (')'); }
        else if (sh == 1) { static struct obj *ab[2]; static int at; o = o_new (OVEC); o->n = 2; o->e[0] = a; o->e[1] = b; ts ("#("); gap (0); text (a, 1); gap (1); text (b, 1); gap (0); tc (')'); }
        else if (sh == 2) { o = o_pair (o_pair (a, o_make (ONIL)), o_pair (b, o_make (ONIL))); ts ("(("); text (a, 1); tc (')'); gap (0); text (b, 1); tc (')'); }
        else { o = o_pair (a, o_pair (o_pair (b, o_make (ONIL)), o_make (ONIL))); tc ('('); text (a, 1); gap (1); tc ('('); text (b, 1); tc (')'); gap (0); tc (')'); }
        open_text (sx_choice (2));
        sx_assert (is (o, read_env (cell_nil)), "structure");
        at_end ();
        break;
      }
    case 8: /* quotation */
      {
        static char const *q[] = { "'", "`", ",", ",@", "#'", "#`", "#,", "#,@" };
        static char const *qn[] = { "quote", "quasiquote", "unquote", "unquote-splicing", "syntax", "quasisyntax", "unsyntax", "unsyntax-splicing" };
        int k = sx_choice (8), in = sx_choice (2), k2 = sx_choice (8);
        struct obj *a = sx_choice (2) ? small () : o_pair (small (), o_make (ONIL));
        if (in) tc ('(');
        ts (q[k]); if (sx_choice (2)) { if (k2 != 9) ts (q[k2]); } else k2 = -1;
        text (a, 1);
        if (in) { ts (" abc)"); }
        open_text (sx_choice (2));
        struct scm *r = read_env (cell_nil);
        at_end ();
        if (in) { sx_assert (r->type == TPAIR && r->cdr->type == TPAIR && r->cdr->car == cstring_to_symbol ("abc") && r->cdr->cdr == cell_nil, "quote-list"); r = r->car; }
        sx_assert (r->type == TPAIR && r->car == cstring_to_symbol (qn[k]) && r->cdr->type == TPAIR && r->cdr->cdr == cell_nil, "quote");
        r = r->cdr->car;
        if (k2 >= 0) { sx_assert (r->type == TPAIR && r->car == cstring_to_symbol (qn[k2]) && r->cdr->type == TPAIR && r->cdr->cdr == cell_nil, "quote-quote"); r = r->cdr->car; }
        sx_assert (is (a, r), "quoted");
        break;
      }
    case 9: /* numbers: decimal, binary, octal, hexadecimal */
      {
        int k = sx_choice (4), neg = sx_choice (2), n = 1 + sx_choice (k ? 4 : 3);
        unsigned long v = 0; int base = k == 0 ? 10 : k == 1 ? 2 : k == 2 ? 8 : 16;
        if (k) { tc ('#'); tc (" box"[k]); }
        if (neg) tc ('-'); else if (!k && sx_choice (2)) tc ('+');
        for (int i = 0; i < n; i++) { long d = sx_int (0, base - 1, "digit"); v = v * base + d; tc (d < 10 ? '0' + d : sx_choice (2) ? 'a' + d - 10 : 'A' + d - 10); }
        if (neg) v = - v;
        int t = sx_choice (4);
        if (t == 1) tc (' '); else if (t == 2) tc (')'); else if (t == 3) tc ('\n');
        open_text (sx_choice (2));
        struct scm *r = read_env (cell_nil);
        sx_assert (r->type == TNUMBER, "number");
        sx_assert (r->value == v, "number-value");
        if (t) sx_assert (readchar () == T[tn - 1], "number-end");
        at_end ();
        break;
      }
    case 10: /* 64-bit numerals */
      {
        static char const *t[] = { "9223372036854775807", "-9223372036854775808", "4294967296", "-2147483649", "#xffffffff", "#x7fffffffffffffff", "#xFFFFFFFFFFFFFFFF", "#o777777777777", "#b100000000000000000000000000000000", "2147483648", "000123" };
        static long v[] = { 9223372036854775807L, -9223372036854775807L - 1, 4294967296L, -2147483649L, 0xffffffffL, 0x7fffffffffffffffL, -1, 0777777777777L, 1L << 32, 2147483648L, 123 };
        int k = sx_choice (11);
        ts (t[k]);
        open_text (sx_choice (2));
        struct scm *r = read_env (cell_nil);
        sx_assert (r->type == TNUMBER && r->value == v[k], "long-numeral");
        at_end ();
        break;
      }
    case 11: /* characters */
      {
        static struct { char const *t; int c; } n2[] = { { "linefeed", 10 }, { "esc", 27 }, { "bel", 7 }, { "bs", 8 }, { "ht", 9 }, { "vt", 11 }, { "cr", 13 }, { "x41", 65 }, { "x7", 7 }, { "xA", 10 }, { "xff", 255 }, { "101", 65 }, { "012", 10 }, { "*eof*", -1 }, { "x", 'x' }, { "a", 'a' }, { "1", '1' }, { "*", '*' }, { "(", '(' }, { "\"", '"' }, { ";", ';' }, { "\\", '\\' }, { "#", '#' } };
        int k = sx_choice (9 + 23), v;
        ts ("#\\");
        if (k < 9) { ts (cname[k].n); v = cname[k].c; } else { ts (n2[k - 9].t); v = n2[k - 9].c; }
        int t = sx_choice (4); if (t == 1) tc (')'); else if (t == 2) tc (' '); else if (t == 3) tc ('(');
        open_text (sx_choice (2));
        struct scm *r = read_env (cell_nil);
        sx_assert (r->type == TCHAR && r->value == v, "character");
        if (t) sx_assert (readchar () == T[tn - 1], "character-end");
        at_end ();
        break;
      }
    case 12: /* string escapes */
      {
        static struct { char const *t; int c; } e2[] = { { "\\0", 0 }, { "\\a", 7 }, { "\\b", 8 }, { "\\t", 9 }, { "\\n", 10 }, { "\\v", 11 }, { "\\f", 12 }, { "\\r", 13 }, { "\\e", 27 }, { "\\x41", 65 }, { "\\xfF", 255 }, { "\\\\", '\\' }, { "\\\"", '"' }, { ";", ';' }, { "(", '(' }, { "#|", '#' }, { "\n", '\n' } };
        int k = sx_choice (17);
        long b = sx_int (0, 255, "byte");
        sx_assume ((b != '"') & (b != '\\') & (b < '0' | b > '9') & (b < 'A' | b > 'F') & (b < 'a' | b > 'f'));
        tc ('"'); tc ('z'); ts (e2[k].t); tc (b); tc ('"'); ts ("abc");
        open_text (sx_choice (2));
        struct scm *r = read_env (cell_nil);
        int n = k == 15 ? 4 : 3;
        sx_assert (r->type == TSTRING && r->length == n, "string");
        char const *p = cell_bytes (r->string);
        sx_assert (p[0] == 'z' && (p[1] & 255) == e2[k].c && p[n] == 0, "string-escape");
        sx_assert (p[n - 1] == (char) b, "string-byte");
        sx_assert (read_env (cell_nil) == cstring_to_symbol ("abc"), "after-string");
        at_end ();
        break;
      }
    case 14: /* any bytes at all: a datum or an error, never anything else */
      {
        for (int i = 0; i < NB; i++) tc (sx_int (0, 255, "byte"));
        open_text (sx_choice (2));
        k_expect_error = 1;
        struct scm *r = read_env (cell_nil);
        sx_assert (r->type >= 0 && r->type <= TBROKEN_HEART, "datum");
        r = read_env (cell_nil);
        sx_assert (r->type >= 0 && r->type <= TBROKEN_HEART, "datum");
        break;
      }
    case 15: case 16: /* any token of identifier characters: a number when it looks like one, otherwise that symbol */
      {
        int n = 1 + sx_choice (NB), isnum, i = 0;
        long b[4]; unsigned long v = 0;
        for (int j = 0; j < n; j++)
          {
            b[j] = c == 15 ? sx_int (33, 126, "byte") : sx_int ('+', '9', "byte");
            sx_assume ((b[j] != '"') & (b[j] != ';') & (b[j] != '(') & (b[j] != ')') & (b[j] != '#') & (b[j] != 39) & (b[j] != ',') & (b[j] != '`'));
            if (c == 15 && j < n - 1) sx_assume (b[j] >= 'a' & b[j] <= 'c' | b[j] == '-' | b[j] == '.' | b[j] >= '0' & b[j] <= '1');
            tc (b[j]);
          }
        if (n == 1) sx_assume (b[0] != '.');
        if (sx_choice (2)) tc (' ');
        if (b[0] == '-' || b[0] == '+') i = 1;
        isnum = i < n;
        for (int j = i; j < n; j++) { if (b[j] < '0' || b[j] > '9') { isnum = 0; break; } v = v * 10 + b[j] - '0'; }
        if (isnum && b[0] == '-') v = - v;
        open_text (sx_choice (2));
        struct scm *r = read_env (cell_nil);
        if (isnum) { sx_assert (r->type == TNUMBER, "token-number"); sx_assert (r->value == v, "token-value"); }
        else
          {
            sx_assert (r->type == TSYMBOL || r->type == TSPECIAL, "token-symbol");
            sx_assert (r->length == n, "token-length");
            for (int j = 0; j < n; j++) sx_assert ((cell_bytes (r->string)[j] & 255) == b[j], "token-name");
            sx_assert (r == (T[n] = 0, string_to_symbol (make_string (T, n))), "token-interned");
          }
        break;
      }
    case 13: /* incomplete data are errors */
      {
        static char const *t[] = { "(", "(abc", "(abc ", "(abc .", "(abc . ", "(abc . )", "\"abc", "\"abc\\", "#| abc", "#(abc", "((abc)", "(abc #| )", "( . )", "#\\abcdefghijkl", "(abc ; )" };
        ts (t[sx_choice (15)]);
        open_text (sx_choice (2));
        K_BAD (read_env (cell_nil));
      }
    }
  sx_cover ("ok");
  return 0;
}
int sx_main (void) { return k_boot (); }
