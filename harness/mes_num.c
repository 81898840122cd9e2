/* Scheme numbers: arithmetic, comparison and bit operations on fixnums, for every 64-bit value. */
#define K_CATCH_ERROR 1
#include "kmes.h"
typedef unsigned long ul;
#ifndef DEEP
#define DEEP 0
#endif
static void k_builtins (void) { k_builtin ("sx-run", 0, k_run_); }
static long v[4]; static struct scm *c[4];
static struct scm *args (int n)
{
  struct scm *l = cell_nil;
  for (int i = n - 1; i >= 0; i--) l = cons (c[i], l);
  return l;
}
/* arguments are not consumed or changed */
static void same (int n)
{
  for (int i = 0; i < n; i++) sx_assert ((c[i]->type == TNUMBER) & (c[i]->value == v[i]), "argument-kept");
}
static void num (struct scm *r, long x, char const *id)
{
  sx_assert (r->type == TNUMBER, id);
  sx_assert (r->value == x, id);
}
static ul mag (long x) { return x < 0 ? - (ul) x : (ul) x; }
static long quo (long x, long y) { ul q = mag (x) / mag (y); return (x < 0) != (y < 0) ? - q : q; }
static long mod (long x, long y)
{
  ul r = mag (x) % mag (y);
  if (r != 0 && (x < 0) != (y < 0)) r = mag (y) - r;
  return y < 0 ? - r : r;
}
static struct scm *notnum (void)
{
  switch (sx_choice (4))
    {
    case 0: return make_char (sx_int (0, 255, "c"));
    case 1: return cell_nil;
    case 2: return make_string0 ("1");
    default: return cell_symbol_quote;
    }
}
static struct scm *k_run (void)
{
  int k = sx_case (12);
  int n = 3;
  for (int i = 0; i < 4; i++) { v[i] = sx_u64 ("x"); c[i] = make_number (v[i]); }
  switch (k)
    {
    case 0: n = sx_choice (4); { ul s = 0; for (int i = 0; i < n; i++) s += v[i]; num (plus (args (n)), s, "plus"); } break;
    case 1: n = sx_choice (4); { ul s = 1; for (int i = 0; i < n; i++) s *= v[i]; num (multiply (args (n)), s, "multiply"); } break;
    case 2: n = 1 + sx_choice (3); { ul s = n == 1 ? - v[0] : v[0]; for (int i = 1; i < n; i++) s -= v[i]; num (minus (args (n)), s, "minus"); } break;
    case 3: n = sx_choice (4);
      {
        int lt = 1, gt = 1, eq = 1;
        for (int i = 1; i < n; i++) { lt &= v[i - 1] < v[i]; gt &= v[i - 1] > v[i]; eq &= v[i - 1] == v[i]; }
        sx_assert ((less_p (args (n)) == cell_t) == lt, "less");
        sx_assert ((greater_p (args (n)) == cell_t) == gt, "greater");
        sx_assert ((is_p (args (n)) == cell_t) == eq, "equal");
      }
      break;
    case 4: n = sx_choice (4);
      {
        ul a = -1, o = 0, x = 0;
        for (int i = 0; i < n; i++) { a &= v[i]; o |= v[i]; x ^= v[i]; }
        num (logand (args (n)), a, "logand");
        num (logior (args (n)), o, "logior");
        num (logxor (args (n)), x, "logxor");
        num (lognot (c[0]), ~ v[0], "lognot");
      }
      break;
    case 5:
      { /* ash: floor (x * 2^y) modulo 2^64 */
        n = 2;
        v[1] = sx_int (-70, 70, "count"); c[1] = make_number (v[1]);
        long y = sx_concrete (v[1]);
        long r = y >= 64 ? 0 : y >= 0 ? (long) ((ul) v[0] << y) : y <= -64 ? (v[0] < 0 ? -1 : 0) : v[0] >> -y;
        num (ash (c[0], c[1]), r, "ash");
      }
      break;
    case 6: /* quotient towards zero */
      n = 1 + sx_choice (DEEP ? 3 : 2);
      for (int i = 1; i < n; i++) sx_assume (v[i] != 0);
      if (n > 2) { sx_assume ((v[0] >= 0) & (v[1] > 0)); }      /* paths */
      {
        long q = v[0];
        for (int i = 1; i < n; i++) q = quo (q, v[i]);
        num (divide (args (n)), q, "divide");
      }
      break;
    case 7: n = 2; sx_assume (v[1] != 0); num (modulo (c[0], c[1]), mod (v[0], v[1]), "modulo"); break;
    case 8: /* division by zero is an error */
      n = 2; v[1] = 0; c[1] = make_number (0);
      if (sx_choice (2)) K_BAD (divide (args (2))); else K_BAD (modulo (c[0], c[1]));
      break;
    case 9:
      { /* operands that are not numbers are errors, in any position */
        n = 1 + sx_choice (3);
        int at = sx_choice (n);
        c[at] = notnum ();
        struct scm *a = args (n);
        switch (sx_choice (10))
          {
          case 0: K_BAD (plus (a)); case 1: K_BAD (minus (a)); case 2: K_BAD (multiply (a)); case 3: K_BAD (logand (a)); case 4: K_BAD (logior (a)); case 5: K_BAD (logxor (a));
          case 6: if (at == 0) K_BAD (divide (a)); break;
          case 7: if (at < 2) { c[1] = at == 1 ? c[1] : make_number (3); K_BAD (modulo (c[0], c[1])); } break;
          case 8: if (at < 2) K_BAD (ash (c[0], c[1])); break;
          default: if (at == 0) K_BAD (lognot (c[0])); break;
          }
        sx_cover ("ok"); sx_done ();
      }
    case 10:
      { /* comparisons with a non-number before the answer is known */
        n = 1 + sx_choice (3);
        int at = sx_choice (n);
        c[at] = notnum ();
        for (int i = 1; i < n; i++) if (i != at && i - 1 != at) sx_assume (v[i - 1] < v[i]);
        switch (sx_choice (3))
          {
          case 0: K_BAD (less_p (args (n)));
          case 1: for (int i = 0; i < n; i++) if (i != at) c[i] = make_number (-i); K_BAD (greater_p (args (n)));
          default: for (int i = 0; i < n; i++) if (i != at) c[i] = make_number (5); K_BAD (is_p (args (n)));
          }
      }
    case 11:
      { /* characters and integers */
        n = 0;
        long x = sx_int (0, 255, "char");
        struct scm *ch = integer_to_char (make_number (x));
        sx_assert ((ch->type == TCHAR) & (ch->value == x), "integer->char");
        num (char_to_integer (ch), x, "char->integer");
        long y = sx_int (0, 255, "char");
        sx_assert ((eq_p (ch, make_char (y)) == cell_t) == (x == y), "char-eq");
        sx_assert ((eq_p (c[0], c[1]) == cell_t) == (v[0] == v[1]), "number-eq");
        sx_assert (eq_p (ch, make_number (x)) == cell_f, "char-number-eq");
        sx_assert (eq_p (make_number (x), ch) == cell_f, "number-char-eq");
      }
      break;
    }
  same (n);
  sx_cover ("ok");
  return 0;
}
int sx_main (void) { return k_boot (); }
