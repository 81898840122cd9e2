/* Memory-block functions against ISO C, exact-size objects so that any stray access is an error. */
#include <string.h>
#include <strings.h>
#include "sx.h"
#ifndef N
#define N 24
#endif
#ifndef M
#define M 8
#endif
typedef unsigned char u;
void bcopy (void const *src, void *dest, size_t n);
int bcmp (void const *s1, void const *s2, size_t size);
void bzero (void *block, size_t size);
static u *sym (long n, char const *nm) { u *p = sx_malloc (n); sx_bytes (p, n, nm); return p; }
static u *dup (u *p, long n) { u *q = sx_malloc (n); for (long i = 0; i < n; i++) q[i] = p[i]; return q; }
/* all-equal without branching */
static int same (u *a, u *b, long n) { int r = 0; for (long i = 0; i < n; i++) r |= a[i] ^ b[i]; return r == 0; }
static long big[] = { 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1025, 4097 };
#define NBIG 17
static long pick_n (void) { long k = sx_choice (2); if (k) return big[sx_choice (NBIG)]; return sx_concrete (sx_int (0, N, "n")); }

static void t_memcpy (void)
{
  long n = pick_n ();
  u *s = sym (n, "src"), *s0 = dup (s, n), *d = sx_malloc (n);
  void *r = memcpy (d, s, n);
  sx_assert (r == d, "memcpy-return");
  sx_assert (same (d, s0, n), "memcpy-copies");
  sx_assert (same (s, s0, n), "memcpy-source-intact");
  sx_cover ("memcpy");
}
static void move_case (long size, long d, long s, long n, int useb)
{
  u *b = sym (size, "buf"), *b0 = dup (b, size);
  if (useb) bcopy (b + s, b + d, n);
  else { void *r = memmove (b + d, b + s, n); sx_assert (r == b + d, "memmove-return"); }
  int bad = 0;
  for (long i = 0; i < size; i++) bad |= b[i] ^ (i >= d && i < d + n ? b0[s + i - d] : b0[i]);
  sx_assert (bad == 0, useb ? "bcopy-moves" : "memmove-moves");
  sx_cover (useb ? "bcopy" : "memmove");
}
static void t_memmove (void)
{
  if (sx_choice (2))
    {
      long n = big[sx_choice (NBIG)];
      long dist[] = { 1, 2, 3, 7, 8, 9, 16, 17, 33 };
      long k = dist[sx_choice (9)];
      if (sx_choice (2)) move_case (n + k, k, 0, n, 0); else move_case (n + k, 0, k, n, 0);
      return;
    }
  long d = sx_concrete (sx_int (0, M, "d")), s = sx_concrete (sx_int (0, M, "s")), n = sx_concrete (sx_int (0, M, "n"));
  move_case (2 * M, d, s, n, 0);
}
static void t_bcopy (void)
{
  long d = sx_concrete (sx_int (0, 5, "d")), s = sx_concrete (sx_int (0, 5, "s")), n = sx_concrete (sx_int (0, 5, "n"));
  move_case (10, d, s, n, 1);
}
static void t_memset (void)
{
  long n = pick_n ();
  int c = sx_u64 ("c");
  u *d = sx_malloc (n);
  void *r = memset (d, c, n);
  sx_assert (r == d, "memset-return");
  int bad = 0;
  for (long i = 0; i < n; i++) bad |= d[i] ^ (u) c;
  sx_assert (bad == 0, "memset-fills");
  sx_cover ("memset");
}
static void t_bzero (void)
{
  long n = pick_n ();
  u *d = sx_malloc (n);
  bzero (d, n);
  int bad = 0;
  for (long i = 0; i < n; i++) bad |= d[i];
  sx_assert (bad == 0, "bzero-zeroes");
  sx_cover ("bzero");
}
static int sign (int x) { return x < 0 ? -1 : x > 0; }
static int cmp_ref (u *a, u *b, long n) { for (long i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
static void t_memcmp (void)
{
  int which = sx_choice (2);
  long n;
  u *a, *b;
  if (sx_choice (2))
    { /* long blocks differing (at most) at one symbolic position */
      n = big[sx_choice (NBIG)];
      if (n > 600) sx_kill ();
      a = sx_malloc (n); b = sx_malloc (n);
      for (long i = 0; i < n; i++) a[i] = b[i] = 7 + i;
      long i = sx_choice (4); long pos = i == 0 ? 0 : i == 1 ? n - 1 : i == 2 ? n / 2 : n - 2;
      sx_bytes (a + pos, 1, "a"); sx_bytes (b + pos, 1, "b");
    }
  else
    {
      n = sx_concrete (sx_int (0, M, "n"));
      a = sym (n, "a"); b = sym (n, "b");
    }
  int r = which ? bcmp (a, b, n) : memcmp (a, b, n);
  int e = cmp_ref (a, b, n);
  if (which) sx_assert ((r == 0) == (e == 0), "bcmp-equality");
  else sx_assert (sign (r) == e, "memcmp-sign");
  sx_cover (which ? "bcmp" : "memcmp");
}
static void t_memchr (void)
{
  long n = sx_concrete (sx_int (0, M, "n"));
  u *a = sym (n, "a");
  int c = sx_u64 ("c");
  u *r = memchr (a, c, n), *e = 0;
  for (long i = 0; i < n && !e; i++) if (a[i] == (u) c) e = a + i;
  sx_assert (r == e, "memchr-first");
  sx_cover (e ? "memchr-found" : "memchr-none");
}
static void t_memmem (void)
{
  long hn = sx_concrete (sx_int (0, 6, "hn")), nn = sx_concrete (sx_int (0, 4, "nn"));
  u *h = sym (hn, "h"), *n = sym (nn, "n");
  u *r = memmem (h, hn, n, nn), *e = 0;
  for (long i = 0; i + nn <= hn && !e; i++) if (cmp_ref (h + i, n, nn) == 0) e = h + i;
  sx_assert (r == e, "memmem-first");
  sx_cover (e ? "memmem-found" : "memmem-none");
}
int sx_main (void)
{
  switch (sx_case (8))
    {
    case 0: t_memcpy (); break;
    case 1: t_memmove (); break;
    case 2: t_memset (); break;
    case 3: t_memcmp (); break;
    case 4: t_memchr (); break;
    case 5: t_memmem (); break;
    case 6: t_bcopy (); break;
    default: t_bzero (); break;
    }
  sx_done ();
  return 0;
}
