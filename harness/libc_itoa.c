/* Integer -> text for every value of the argument type. */
#include <stdlib.h>
#include <mes/lib.h>
#include "sx.h"
#include "alloc.h"
typedef unsigned char u;
char *ntoab (long x, unsigned base, int signed_p);
char *ltoab (long x, int base);
static void check (char *r, unsigned long mag, int neg, unsigned base, char const *id)
{ /* r is the canonical numeral for (neg ? -mag : mag) */
  long i = 0; unsigned long v = 0, w = 0; int bad = 0;
  if (neg) { sx_assert (r[0] == '-', id); r++; }
  for (; i < 65 && r[i]; i++)
    {
      int c = (u) r[i], d;
      if (c <= '9') d = c - '0'; else d = c - 'a' + 10;
      bad |= !((c >= '0' && c <= '9') | (c >= 'a' && c <= 'z')) | (d >= base);
      v = v * base + d;
    }
  sx_assert (i > 0 && i <= 64, id);
  sx_assert (!bad, id);
  sx_assert (v == mag, id);
  sx_assert (i == 1 || r[0] != '0', id);
}
/* |value| as its numeral in base b, at most lim: any digits, any length, the longest numerals with leading digits below the
   maximum's.  Bases above 10 branch per digit: at most SYM symbolic digits, placed anywhere, the others fixed. */
#ifndef SYM
#define SYM 4
#endif
static unsigned long digits (int b, unsigned long lim)
{
  unsigned long v, m = 1;
  long max = 1, from = 0, to = 64;
  while (lim / m >= b) { m = m * b; max++; }            /* lim has max digits, m = b^(max-1) */
  long n = 1 + sx_choice (max);
  if (b > 10) { from = sx_choice (n > SYM ? n - SYM + 1 : 1); to = from + SYM; }
  if (n == max)
    {
      unsigned long top = lim / m;         /* leading digit of the largest value */
      if (top >= 2) v = from ? 1 : sx_int (1, top - 1, "lead");
      else { unsigned long s = (lim - m) / (m / b); if (s == 0) return m; v = b + (from > 1 ? s - 1 : sx_int (0, s - 1, "lead2")); n--; from--; to--; }
    }
  else v = from ? b - 1 : sx_int (n > 1, b - 1, "lead");
  for (long i = 1; i < n; i++) v = v * b + (i >= from && i < to ? (unsigned long) sx_int (0, b - 1, "digit") : (unsigned long) (i * 7 % b));
  return v;
}
static unsigned long value (int b, unsigned long lim)
{
  if (sx_choice (2)) return digits (b, lim);
  static unsigned long const edge[] = { 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, ~0UL };
  unsigned long v = edge[sx_choice (7)] + sx_choice (3) - 1;
  if (v > lim) sx_kill ();
  return v;
}
/* signed argument of magnitude at most 2^63 (or 2^31) */
static unsigned long svalue (int b, unsigned long half, int *neg)
{
  *neg = sx_choice (2);
  unsigned long v = value (b, half - 1 + *neg);
  if (*neg && v == 0) sx_kill ();
  return v;
}
int sx_main (void)
{
  static int const bases[] = { 10, 16, 8, 2, 36, 3, 7 };
  long w = sx_case (10);
  unsigned long m; int neg;
  if (w < 7)
    {
      unsigned b = bases[w];
      if (sx_choice (2)) { m = w == 2 || w == 3 ? sx_u64 ("all") : value (b, ~0UL); check (ntoab (m, b, 0), m, 0, b, "ntoab-unsigned"); }
      else { m = svalue (b, 1UL << 63, &neg); check (ntoab (neg ? -m : m, b, 1), m, neg, b, "ntoab-signed"); }
      sx_cover ("ntoab");
    }
  else if (w == 7) { m = svalue (10, 1UL << 63, &neg); check (ltoab (neg ? -m : m, 10), m, neg, 10, "ltoab"); sx_cover ("ltoab"); }
  else if (w == 8)
    {
      if (sx_choice (2)) { m = value (10, ~0UL); check (ultoa (m), m, 0, 10, "ultoa"); }
      else { m = svalue (10, 1UL << 63, &neg); check (ltoa (neg ? -m : m), m, neg, 10, "ltoa"); }
      sx_cover ("ltoa");
    }
  else
    {
      if (sx_choice (2)) { m = value (10, 0xffffffff); check (utoa (m), m, 0, 10, "utoa"); }
      else { m = svalue (10, 1UL << 31, &neg); check (itoa (neg ? -m : m), m, neg, 10, "itoa"); }
      sx_cover ("itoa");
    }
  sx_done ();
  return 0;
}
