/* String functions against ISO C / POSIX; objects have exactly the size the interface requires. */
#include <string.h>
#include <strings.h>
#include <stdlib.h>
#include "sx.h"
#include "alloc.h"
#ifndef M
#define M 5
#endif
#ifndef S
#define S 3
#endif
typedef unsigned char u;
char *index (char const *s, int c);
char *rindex (char const *s, int c);
char *strdup (char const *s);
char *strncat (char *to, char const *from, size_t size);
size_t strspn (char const *, char const *);
size_t strcspn (char const *, char const *);
char *strpbrk (char const *, char const *);
/* a string of symbolic contents and length 0..max in an object of exactly length+1 bytes */
static u *str (long max, char const *nm, long *len)
{
  long n = sx_choice (max + 1);
  u *p = sx_malloc (n + 1);
  sx_bytes (p, n, nm);
  for (long i = 0; i < n; i++) sx_assume (p[i] != 0);
  p[n] = 0;
  *len = n;
  return p;
}
static u *dup (u *p, long n) { u *q = sx_malloc (n); for (long i = 0; i < n; i++) q[i] = p[i]; return q; }
static int same (u *a, u *b, long n) { int r = 0; for (long i = 0; i < n; i++) r |= a[i] ^ b[i]; return r == 0; }
static int sign (int x) { return x < 0 ? -1 : x > 0; }
static int in_set (u c, u *s, long n) { int r = 0; for (long i = 0; i < n; i++) r |= s[i] == c; return r; }
static int cmp_ref (u *a, u *b, long max)
{
  for (long i = 0; i < max; i++) { if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; if (!a[i]) return 0; }
  return 0;
}
static void t_strlen (void)
{
  long n; u *s = str (12, "s", &n);
  sx_assert (strlen ((char *) s) == n, "strlen");
  sx_cover ("strlen");
}
static void t_strcmp (void)
{
  long n, m; u *a = str (M, "a", &n), *b = str (M, "b", &m);
  int r = strcmp ((char *) a, (char *) b), e = cmp_ref (a, b, 100);
  sx_assert (sign (r) == e, "strcmp-sign");
  sx_cover ("strcmp");
}
static void t_strncmp (void)
{
  long n, m; u *a = str (M, "a", &n), *b = str (M, "b", &m);
  long k = sx_concrete (sx_int (0, M + 2, "k"));
  int r = strncmp ((char *) a, (char *) b, k), e = cmp_ref (a, b, k);
  sx_assert (sign (r) == e, "strncmp-sign");
  sx_cover ("strncmp");
}
static void t_strncmp_unterminated (void)
{ /* arrays of exactly k bytes need no terminator */
  long k = sx_choice (M);
  u *a = sx_malloc (k), *b = sx_malloc (k);
  sx_bytes (a, k, "a"); sx_bytes (b, k, "b");
  int r = strncmp ((char *) a, (char *) b, k), e = cmp_ref (a, b, k);
  sx_assert (sign (r) == e, "strncmp-array");
  sx_cover ("strncmp-array");
}
static void t_strcpy (void)
{
  long n; u *s = str (12, "s", &n), *s0 = dup (s, n + 1), *d = sx_malloc (n + 1);
  char *r = strcpy ((char *) d, (char *) s);
  sx_assert (r == (char *) d, "strcpy-return");
  sx_assert (same (d, s0, n + 1) && same (s, s0, n + 1), "strcpy-copies");
  sx_cover ("strcpy");
}
static void t_strncpy (void)
{
  long n; u *s;
  long k = sx_choice (M + 4);
  if (sx_choice (2))
    { /* source array without terminator, exactly k bytes are read */
      n = k; s = sx_malloc (k); sx_bytes (s, k, "s");
      for (long i = 0; i < k; i++) sx_assume (s[i] != 0);
    }
  else s = str (M, "s", &n);
  u *d = sx_malloc (k);
  char *r = strncpy ((char *) d, (char *) s, k);
  sx_assert (r == (char *) d, "strncpy-return");
  int bad = 0;
  for (long i = 0; i < k; i++) bad |= d[i] ^ (i < n ? s[i] : 0);
  sx_assert (bad == 0, "strncpy-copies-and-pads");
  sx_cover ("strncpy");
}
static void t_strcat (void)
{
  long n, m; u *a = str (M, "a", &n), *b = str (M, "b", &m);
  u *d = sx_malloc (n + m + 1);
  for (long i = 0; i <= n; i++) d[i] = a[i];
  char *r = strcat ((char *) d, (char *) b);
  sx_assert (r == (char *) d, "strcat-return");
  sx_assert (same (d, a, n) && same (d + n, b, m + 1), "strcat-appends");
  sx_cover ("strcat");
}
static void t_strncat (void)
{
  long n, m, k = sx_choice (M + 2);
  u *a = str (3, "a", &n), *b;
  if (sx_choice (2))
    { m = k; b = sx_malloc (k); sx_bytes (b, k, "b"); for (long i = 0; i < k; i++) sx_assume (b[i] != 0); }
  else b = str (M, "b", &m);
  long l = m < k ? m : k;
  u *d = sx_malloc (n + l + 1);
  for (long i = 0; i <= n; i++) d[i] = a[i];
  char *r = strncat ((char *) d, (char *) b, k);
  sx_assert (r == (char *) d, "strncat-return");
  sx_assert (same (d, a, n) && same (d + n, b, l) && d[n + l] == 0, "strncat-appends");
  sx_cover ("strncat");
}
static void t_strchr (int w)
{
  long n; u *a = str (M + 1, "a", &n);
  int c = sx_u64 ("c");
  u *e = 0;
  char *r;
  if (w < 2)
    {
      r = w ? index ((char *) a, c) : strchr ((char *) a, c);
      for (long i = 0; i <= n && !e; i++) if (a[i] == (u) c) e = a + i;
      sx_assert (r == (char *) e, w ? "index-first" : "strchr-first");
      sx_cover (e ? "strchr-found" : "strchr-none");
    }
  else
    {
      r = w == 2 ? strrchr ((char *) a, c) : rindex ((char *) a, c);
      for (long i = n; i >= 0 && !e; i--) if (a[i] == (u) c) e = a + i;
      sx_assert (r == (char *) e, w == 2 ? "strrchr-last" : "rindex-last");
      sx_cover (e ? "strrchr-found" : "strrchr-none");
    }
}
static void t_strstr (void)
{
  long n, m; u *a = str (6, "a", &n), *b = str (S, "b", &m), *e = 0;
  char *r = strstr ((char *) a, (char *) b);
  for (long i = 0; i + m <= n && !e; i++) if (same (a + i, b, m)) e = a + i;
  sx_assert (r == (char *) e, "strstr-first");
  sx_cover (e ? "strstr-found" : "strstr-none");
}
static void t_span (int w)
{
  long n, m; u *a = str (M, "a", &n), *b = str (S, "set", &m);
  long i = 0;
  if (w == 0) { while (i < n && in_set (a[i], b, m)) i++; sx_assert (strspn ((char *) a, (char *) b) == i, "strspn"); sx_cover ("strspn"); return; }
  while (i < n && !in_set (a[i], b, m)) i++;
  if (w == 1) { sx_assert (strcspn ((char *) a, (char *) b) == i, "strcspn"); sx_cover ("strcspn"); return; }
  char *e = i < n ? (char *) a + i : 0;
  sx_assert (strpbrk ((char *) a, (char *) b) == e, "strpbrk");
  sx_cover (e ? "strpbrk-found" : "strpbrk-none");
}
static void t_strdup (void)
{
  long n; u *s = str (10, "s", &n);
  char *r = strdup ((char *) s);
  sx_assert (r != 0 && !sx_same_object (r, s) || !sx_engine (), "strdup-fresh");
  sx_assert (same ((u *) r, s, n + 1), "strdup-copies");
  sx_cover ("strdup");
}
static void t_case (int w)
{
  long n; u *s = str (M - 1, "s", &n), *s0 = dup (s, n + 1);
  char *r = w ? strupr ((char *) s) : strlwr ((char *) s);
  sx_assert (r == (char *) s, "strcase-return");
  int bad = 0;
  for (long i = 0; i <= n; i++)
    {
      u c = s0[i];
      u e = w ? (c >= 'a' && c <= 'z' ? c - 32 : c) : (c >= 'A' && c <= 'Z' ? c + 32 : c);
      bad |= e ^ s[i];
    }
  sx_assert (bad == 0, w ? "strupr" : "strlwr");
  sx_cover (w ? "strupr" : "strlwr");
}
size_t __argz_count (const char *argz, size_t len);
size_t __argz_extract_count (char const *argz, size_t len, char **argv);
int sx_main (void)
{
  switch (sx_case (19))
    {
    case 0: t_strlen (); break;
    case 1: t_strcmp (); break;
    case 2: t_strncmp (); break;
    case 3: t_strcpy (); break;
    case 4: t_strncpy (); break;
    case 5: t_strcat (); break;
    case 6: t_strncat (); break;
    case 7: t_strchr (0); break;
    case 8: t_strchr (1); break;
    case 9: t_strchr (2); break;
    case 10: t_strchr (3); break;
    case 11: t_strstr (); break;
    case 12: t_span (0); break;
    case 13: t_span (1); break;
    case 14: t_span (2); break;
    case 15: t_strdup (); break;
    case 16: t_case (0); break;
    case 17: t_case (1); break;
    default: t_strncmp_unterminated (); break;
    }
  sx_done ();
  return 0;
}
