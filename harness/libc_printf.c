/* vsnprintf, vsprintf, vfprintf and vprintf against the C standard's description of the conversions, over every combination of
   flags - and 0, width, precision and length, with any value, string and buffer size within the bounds.
   An argument slot is 8 bytes, as va_arg of this library reads it. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <stdarg.h>
#include "sx.h"
#include "alloc.h"
#ifndef NV
#define NV 2
#endif
int vsnprintf (char *str, size_t size, char const *format, va_list ap);
int vsprintf (char *str, char const *format, va_list ap);
int vfprintf (FILE * f, char const *format, va_list ap);
int vprintf (char const *format, va_list ap);
static char out[200]; static long outn, out_bad; static int out_fd;
ssize_t SX_OVERRIDE (write) (int fd, void const *p, size_t n)
{
  if (fd != out_fd || outn + n > sizeof out) { out_bad = 1; return n; }
  for (size_t i = 0; i < n; i++) out[outn++] = ((char *) p)[i];
  return n;
}
/* the format under construction and what it has to give */
static char fmt[40]; static int fn;
static long args[6]; static int an;
static char want[120]; static long wn;
static void f (char c) { fmt[fn++] = c; }
static void w (char c) { want[wn++] = c; }
static void fnum (long n) { if (n >= 10) f ('0' + n / 10); f ('0' + n % 10); }
static long width, prec; static int left, zero;
/* "%" flags width precision length */
static void spec (int deep)
{
  static int const wd[] = { -1, 1, 4, 6 }, ws[] = { 0, 3, 5, -5 }, ps[] = { 0, 2, 4, -1 };
  f ('%');
  left = sx_choice (2); if (left) f ('-');
  zero = sx_choice (2); if (zero) f ('0');
  long k = sx_choice (deep ? 8 : 4);
  width = k < 4 ? wd[k] : ws[k - 4];
  if (k >= 4) { f ('*'); args[an++] = width; if (width < 0) { left = 1; width = -width; } }
  else if (width > 0) fnum (width);
  k = sx_choice (9);
  prec = -1;
  if (k) f ('.');
  if (k == 1) prec = 0;
  else if (k > 1 && k < 5) { static int const pd[] = { 0, 2, 5 }; prec = pd[k - 2]; fnum (prec); }
  else if (k >= 5) { f ('*'); prec = ps[k - 5]; args[an++] = prec; if (prec < 0) prec = -1; }
  k = sx_choice (3);
  while (k--) f ('l');
}
static void pad (long n, char c) { while (n-- > 0) w (c); }
/* the text D of LEN digits with sign */
static void number (char const *d, long len, int neg, int none)
{
  long z, n;
  if (prec == 0 && none) len = 0;
  z = prec > len ? prec - len : 0;
  if (prec < 0 && zero && !left) { z = width - neg - len; if (z < 0) z = 0; }
  n = width - neg - z - len;
  if (!left) pad (n, ' ');
  if (neg) w ('-');
  pad (z, '0');
  for (long i = 0; i < len; i++) w (d[i]);
  if (left) pad (n, ' ');
}
static void text (char const *s, long len)
{
  long n = width - len;
  if (!left) pad (n, ' ');
  for (long i = 0; i < len; i++) w (s[i]);
  if (left) pad (n, ' ');
}
/* a numeral of the base: its digits and its value; LIM > 0: one of the edge values */
static long numeral (int base, int upper, char *d, unsigned long *v, int is_signed, int *neg)
{
  static unsigned long const edge[] = { 0, 1UL << 31, 0xffffffff, 1UL << 63, ~0UL };
  long n = 0;
  *neg = 0;
  unsigned long x, y;
  long k = sx_choice (2 + 5);
  if (k < 2)
    {
      n = k ? 1 + sx_choice (NV) : 1; x = 0;
      if (!k) { d[0] = '0'; *v = 0; return 1; }
      for (long i = 0; i < n; i++)
        {
          long g = sx_int (i == 0, base - 1, "digit");
          x = x * base + g;
          d[i] = base <= 10 || g < 10 ? '0' + g : (upper ? 'A' : 'a') + g - 10;
        }
      if (is_signed) *neg = sx_choice (2);
      *v = *neg ? -x : x;
      return n;
    }
  x = edge[k - 2];
  *v = x;
  if (is_signed && (long) x < 0) { *neg = 1; x = -x; }
  y = x; do { n++; y /= base; } while (y);
  for (long i = n - 1; i >= 0; i--) { long g = x % base; d[i] = g < 10 ? '0' + g : (upper ? 'A' : 'a') + g - 10; x /= base; }
  return n;
}
static void run (void)
{
  int r;
  f (0); w (0); wn--;
  long how = sx_choice (4);
  if (how == 0)
    {
      long size = sx_choice (wn + 3);
      char *b = sx_malloc (size);
      r = vsnprintf (b, size, fmt, (va_list) args);
      sx_assert (r == wn, "count");
      long m = size - 1 < wn ? size - 1 : wn;
      for (long i = 0; i < m; i++) sx_assert (b[i] == want[i], "text");
      if (size) sx_assert (b[m] == 0, "terminated");
      sx_cover (size <= wn ? "truncated" : "buffer");
      return;
    }
  if (how == 1)
    {
      char *b = sx_malloc (wn + 1);
      r = vsprintf (b, fmt, (va_list) args);
      sx_assert (r == wn, "count");
      for (long i = 0; i < wn; i++) sx_assert (b[i] == want[i], "text");
      sx_assert (b[wn] == 0, "terminated");
      sx_cover ("sprintf");
      return;
    }
  out_fd = how == 2 ? 1 : 7;
  r = how == 2 ? vprintf (fmt, (va_list) args) : vfprintf ((FILE *) 7, fmt, (va_list) args);
  sx_assert (!out_bad && outn == wn, "written");
  for (long i = 0; i < wn; i++) sx_assert (out[i] == want[i], "text");
  sx_assert (r == wn, "count");
  sx_cover ("stream");
}
static long n_at; static int n_val = -7;
extern char **environ;
int sx_main (void)
{
  static char *no_env[1];
  environ = no_env;
  static char const conv[] = "diouxXcsn%p";
  long c = sx_case (11);
  char d[70]; unsigned long v; int neg;
  extern int __stdin, __stdout, __stderr;
  __stdin = 0; __stdout = 1; __stderr = 2;
  if (c == 10)
    { /* literal text and several conversions in one format */
      long n = 1 + sx_choice (3);
      for (long i = 0; i < n; i++)
        {
          long k = sx_choice (5);
          if (k == 0) { char ch = sx_int (1, 255, "lit"); sx_assume (ch != '%'); f (ch); w (ch); }
          else if (k == 1) { f ('%'); f ('%'); w ('%'); }
          else if (k == 2) { f ('%'); f ('d'); long x = sx_int (0, 9, "d"); args[an++] = x; w ('0' + x); }
          else if (k == 3) { f ('%'); f ('c'); long x = sx_int (1, 255, "c"); args[an++] = x; w (x); }
          else { char *s = sx_zmalloc (3); long m = sx_choice (3); f ('%'); f ('s'); for (long j = 0; j < m; j++) { s[j] = sx_int (1, 255, "s"); w (s[j]); } args[an++] = (long) s; }
        }
      sx_cover ("several");
      run (); sx_done (); return 0;
    }
  if (c == 8)
    { /* %n after some text */
      long n = sx_choice (3);
      for (long i = 0; i < n; i++) { f ('x'); w ('x'); }
      width = 3; left = 0; f ('%'); f ('3'); f ('d'); args[an++] = 5; w (' '); w (' '); w ('5');
      n_at = wn;
      f ('%'); f ('n'); args[an++] = (long) &n_val; f ('y'); w ('y');
      run ();
      sx_assert (n_val == n_at, "n");
      sx_cover ("n"); sx_done (); return 0;
    }
  if (c == 9) { f ('a'); w ('a'); f ('%'); f ('%'); w ('%'); if (sx_choice (2)) { f ('b'); w ('b'); } run (); sx_cover ("percent"); sx_done (); return 0; }
  if (sx_choice (2)) { f ('<'); w ('<'); }
  spec (1);
  f (conv[c]);
  if (c < 6)
    {
      int base = c == 2 ? 8 : c >= 4 ? 16 : 10;
      long n = numeral (base, c == 5, d, &v, c < 2, &neg);
      args[an++] = v;
      number (d, n, neg, v == 0);
    }
  else if (c == 6)
    {
      if (prec != -1) sx_kill ();
      long ch = sx_int (0, 255, "c");
      args[an++] = ch;
      char t = ch;
      text (&t, 1);
    }
  else
    {
      long n = sx_choice (4);
      /* with a precision the string need not be terminated */
      int open = prec >= 0 && prec <= n ? sx_choice (2) : 0;
      char *s = sx_malloc (open ? prec : n + 1);
      long m = open ? prec : n;
      for (long i = 0; i < m; i++) s[i] = sx_int (1, 255, "s");
      if (!open) s[n] = 0;
      args[an++] = (long) s;
      text (s, prec >= 0 && prec < n ? prec : n);
    }
  if (sx_choice (2)) { f ('>'); w ('>'); }
  sx_cover ("conversion");
  run ();
  sx_done ();
  return 0;
}
