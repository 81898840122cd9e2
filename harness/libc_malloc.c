/* malloc / calloc / realloc over a kernel that grants or refuses memory. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include "sx.h"
#define ARENA 4096
extern char *__brk;
extern char **environ;
typedef unsigned char u;
static u *arena; static long top = 8, limit;
/* kernel: brk returns the new program break, or the old one when it refuses; memory above it is not accessible.
   The pages are zero when first granted. */
static long kbrk (u *want)
{
  u *cur = arena + top;
  if ((unsigned long) want < (unsigned long) arena || (unsigned long) want > (unsigned long) (arena + limit)) return (long) cur;
  top = want - arena;
  return (long) want;
}
long SX_OVERRIDE (__sys_call1) (long n, long a) { if (n == 12) return kbrk ((u *) a); return -38; }
static void init (long lim)
{
  static char *none[1]; environ = none;
  arena = sx_zmalloc (ARENA); arena = (u *) (((unsigned long) arena + 15) & -16UL); limit = lim; static int const st[] = { 0, 3, 8 }; top = st[sx_choice (3)];
}
/* live blocks */
#define K 4
static u *blk[K]; static long len[K]; static int nb;
static u img[K][64];
static void own (u *p, long n)
{
  sx_assert (((unsigned long) p & 7) == 0, "malloc-alignment");
  sx_assert (p >= arena && p + n <= arena + top, "malloc-inside-break");
  for (int i = 0; i < nb; i++) if (blk[i]) sx_assert (p + n <= blk[i] || blk[i] + len[i] <= p || n == 0 || len[i] == 0, "malloc-disjoint");
  blk[nb] = p; len[nb] = n;
  for (long i = 0; i < n; i++) { u c; sx_bytes (&c, 1, "c"); p[i] = c; img[nb][i] = c; }
  nb++;
}
static void intact (void)
{
  int bad = 0;
  for (int i = 0; i < nb; i++) if (blk[i]) for (long k = 0; k < len[i]; k++) bad |= blk[i][k] ^ img[i][k];
  sx_assert (!bad, "blocks-keep-contents");
}
static long size (void) { static int const s[] = { 0, 1, 16, 29 }; return s[sx_choice (4)]; }
/* any history of OPS allocator calls */
static void t_history (int ops)
{
  init (ARENA / 2);
  for (int i = 0; i < ops; i++)
    {
      long n;
      switch (sx_choice (4))
        {
        case 0: { n = size (); u *p = malloc (n); sx_assert (p != 0, "malloc-succeeds"); own (p, n); break; }
        case 1:
          { /* calloc after dirtying and releasing memory */
            long m = sx_choice (3); n = size (); if (m * n > 60) n = 20;
            u *p = calloc (m, n); sx_assert (p != 0, "calloc-succeeds");
            int bad = 0; for (long k = 0; k < m * n; k++) bad |= p[k];
            sx_assert (!bad, "calloc-zero");
            own (p, m * n); break;
          }
        case 2:
          {
            n = size ();
            if (!nb || !blk[nb - 1]) { u *p = realloc (0, n); sx_assert (p != 0, "realloc-null"); own (p, n); break; }
            u *old = blk[nb - 1]; long ol = len[nb - 1], m = ol < n ? ol : n;
            u *p = realloc (old, n);
            sx_assert (p != 0 || n == 0, "realloc-succeeds");
            if (!p) break;
            int bad = 0; for (long k = 0; k < m; k++) bad |= p[k] ^ img[nb - 1][k];
            sx_assert (!bad, "realloc-keeps-contents");
            blk[nb - 1] = 0; own (p, n); break;
          }
        default: if (nb && blk[nb - 1]) { free (blk[nb - 1]); blk[nb - 1] = 0; } else free (0);
        }
      intact ();
    }
  sx_cover ("history");
}
/* a refused request returns null, and later requests that fit still work */
static void t_refused (void)
{
  init (200);
  long a = sx_choice (5) * 40;
  u *p = malloc (a);
  long n = sx_int (0, 400, "n"); n = sx_concrete (n);
  u *q = malloc (n);
  int fits = (((p - arena) + a + 7) & -8) + n <= 200;
  sx_assert (p != 0, "malloc-first");
  sx_assert ((q != 0) == fits, "malloc-null-exactly-when-refused");
  if (q) { own (q, 0); sx_cover ("granted"); }
  else
    {
      sx_cover ("refused");
      u *r = realloc (p, n); sx_assert (r == 0, "realloc-refused");
      r = calloc (n, 1); sx_assert (r == 0, "calloc-refused");
      if (p - arena + a + 8 + 7 <= 200) { r = malloc (1); sx_assert (r != 0, "malloc-after-refusal"); }
    }
}
/* sizes near the top of the address space cannot wrap around */
static void t_huge (void)
{
  init (1000);
  u *p = malloc (16);
  unsigned long n = sx_u64 ("n");
  sx_assume (n >= 2000);
  u *q = malloc (n);
  sx_assert (q == 0, "malloc-huge");
  unsigned long m = sx_u64 ("m"), k = sx_concrete (sx_int (1, 9, "k"));
  sx_assume (m > ~0UL / k);             /* m * k overflows */
  sx_assert (calloc (m, k) == 0, "calloc-overflow");
  sx_assert (calloc (k, m) == 0, "calloc-overflow");
  sx_cover ("huge");
}
int sx_main (void)
{
  switch (sx_case (4))
    {
    case 0: t_history (2); break;
    case 1: t_history (OPS); break;
    case 2: t_refused (); break;
    default: t_huge (); break;
    }
  sx_done ();
  return 0;
}
