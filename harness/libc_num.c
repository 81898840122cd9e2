/* Text -> integer: strtol family, atoi/atol, abtol. */
#include <stdlib.h>
#include <limits.h>
#include "sx.h"
#include "alloc.h"
typedef unsigned char u;
long abtol (char const **p, int base);
long atol (char const *s);
#ifndef N
#define N 4
#endif
static int val (int c)
{ /* without branches */
  int d = (c >= '0') & (c <= '9'), l = (c >= 'a') & (c <= 'z'), h = (c >= 'A') & (c <= 'Z');
  return sx_select (d, c - '0', sx_select (l, c - 'a' + 10, sx_select (h, c - 'A' + 10, 99)));
}
static int sp (int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
/* ISO C strtol on s with length n (values in range); *end = index after the number, 0 when there is none */
static unsigned long ref (u *s, int base, long *end)
{
  long i = 0; int neg = 0; unsigned long r = 0;
  while (sp (s[i])) i++;
  if (s[i] == '-') { neg = 1; i++; } else if (s[i] == '+') i++;
  if ((base == 0 || base == 16) && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && val (s[i + 2]) < 16) { i += 2; base = 16; }
  else if (base == 0) base = s[i] == '0' ? 8 : 10;
  long st = i;
  while (val (s[i]) < base) { r = r * base + val (s[i]); i++; }
  *end = i == st ? 0 : i;
  return i == st ? 0 : neg ? -r : r;
}
static u *str (long n, char const *nm)
{
  u *p = sx_malloc (n + 1);
  sx_bytes (p, n, nm);
  for (long i = 0; i < n; i++) sx_assume (p[i] != 0);
  p[n] = 0;
  return p;
}
static void digits (u *p, long n) { for (long i = 0; i < n; i++) sx_assume (p[i] >= '0' && p[i] <= '9'); }
static void strtol_all (u *s, int base)
{
  long end; char *tail = 0, *t1 = 0, *t2 = 0, *t3 = 0;
  unsigned long e = ref (s, base, &end);
  sx_assert (strtol ((char *) s, &tail, base) == e, "strtol-value");
  sx_assert (tail == (char *) s + end, "strtol-tail");
  sx_assert (strtoul ((char *) s, &t1, base) == e && t1 == tail, "strtoul");
  sx_assert (strtoll ((char *) s, &t2, base) == e && t2 == tail, "strtoll");
  sx_assert (strtoull ((char *) s, &t3, base) == e && t3 == tail, "strtoull");
  sx_assert (strtol ((char *) s, 0, base) == e, "strtol-null-tail");
  sx_cover (end ? "strtol-number" : "strtol-none");
}
/* any string of up to N bytes */
static void t_strtol (int base) { strtol_all (str (sx_choice (N + 1), "s"), base); }
/* prefixed numbers: space, sign, 0x/0X/0, two bytes of any kind */
static void t_prefix (void)
{
  static int const bases[] = { 0, 16, 8, 10, 36 };
  int base = bases[sx_choice (5)];
  u *s = sx_malloc (8); long n = 0;
  if (sx_choice (2)) { sx_bytes (s, 1, "sp"); sx_assume (sp (s[0])); n++; }
  int g = sx_choice (3);
  if (g) s[n++] = g == 1 ? '-' : '+';
  s[n++] = '0';
  int x = sx_choice (3);
  if (x) s[n++] = x == 1 ? 'x' : 'X';
  sx_bytes (s + n, 2, "t"); s[n + 2] = 0;
  strtol_all (s, base);
  sx_cover ("prefix");
}
static void t_atoi (void)
{
  u *s = str (sx_choice (N + 1), "s"); long end;
  long e = ref (s, 10, &end);
  sx_assert (atoi ((char *) s) == (int) e, "atoi");
  sx_assert (atol ((char *) s) == e, "atol");
  sx_cover ("atoi");
}
/* long numbers: value of every digit string of k digits, all representable */
static void t_long (void)
{
  long k = 1 + sx_choice (19);
  int neg = sx_choice (2);
  u *s = sx_malloc (k + 2);
  unsigned long v = 0;
  s[0] = neg ? '-' : '+'; s[k + 1] = 0;
  for (long i = 1; i <= k; i++)
    { /* the longest numerals stay below 9.2e18 */
      long d = k == 19 && i == 1 ? sx_int (0, 8, "d") : sx_int (0, 9, "d");
      s[i] = '0' + d; v = v * 10 + d;
    }
  long e = neg ? -v : v;
  char *t;
  sx_assert (strtol ((char *) s, &t, 10) == e && *t == 0, "strtol-long");
  sx_assert (strtoll ((char *) s, 0, 10) == e, "strtoll-long");
  sx_assert (atol ((char *) s) == e, "atol-long");
  if (!neg) sx_assert (strtoul ((char *) s, &t, 10) == v, "strtoul-long");
  if (k <= 9) sx_assert (atoi ((char *) s) == e, "atoi-long");
  sx_cover ("long");
}
static void t_edge (void)
{
  static char const *const txt[] = { "2147483647", "-2147483648", "4294967295", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "9223372036854775808" };
  static unsigned long const val[] = { 2147483647, -2147483648UL, 4294967295, 9223372036854775807UL, 1UL << 63, ~0UL, 1UL << 63 };
  int i = sx_choice (7); char *t;
  sx_assert (strtoul (txt[i], &t, 10) == val[i] && *t == 0, "edge");
  if (i < 5) sx_assert (strtol (txt[i], &t, 0) == (long) val[i] && atol (txt[i]) == (long) val[i], "edge");
  if (i < 2) sx_assert (atoi (txt[i]) == (int) val[i], "edge");
}
static void t_hex (void)
{ /* up to 16 hexadecimal digits, mixed case; three of them free */
  long k = 1 + sx_choice (16), at = sx_choice (k > 3 ? k - 2 : 1);
  u *s = sx_malloc (k + 3);
  s[0] = '0'; s[1] = 'x'; s[k + 2] = 0;
  unsigned long v = 0;
  for (long i = 0; i < k; i++)
    {
      u c;
      if (i >= at && i < at + 3) { sx_bytes (&c, 1, "h"); int x = val (c); sx_assume (x < 16); v = v * 16 + x; }
      else { c = "0123456789ABCDEFabcdef"[(i * 7 + 3) % 22]; v = v * 16 + val (c); }
      s[i + 2] = c;
    }
  char *t;
  sx_assert (strtoul ((char *) s, &t, 16) == v && *t == 0, "strtoul-hex");
  sx_assert (strtoull ((char *) s, &t, 0) == v && *t == 0, "strtoull-hex");
  sx_cover ("hex");
}
static void t_abtol (void)
{
  static int const bases[] = { 0, 10, 16, 8, 2 };
  int base = bases[sx_choice (5)];
  u *s = str (sx_choice (N + 1), "s");
  char const *p = (char *) s;
  long i = 0; int neg = 0; unsigned long r = 0;
  int b = base ? base : 10;
  while (sp (s[i])) i++;
  if (s[i] == '-') { neg = 1; i++; } else if (s[i] == '+') i++;
  while (val (s[i]) < b) { r = r * b + val (s[i]); i++; }
  long v = abtol (&p, base);
  sx_assert (v == (long) (neg ? -r : r), "abtol-value");
  sx_assert (p == (char *) s + i, "abtol-end");
  sx_cover ("abtol");
}
int sx_main (void)
{
  static int const bases[] = { 0, 10, 16, 8, 2, 36, 7, 19 };
  long w = sx_case (13);
  if (w < 8) t_strtol (bases[w]);
  else if (w == 8) t_prefix ();
  else if (w == 9) t_atoi ();
  else if (w == 10) { if (sx_choice (2)) t_long (); else t_edge (); }
  else if (w == 11) t_hex ();
  else t_abtol ();
  sx_done ();
  return 0;
}
