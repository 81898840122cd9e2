/* qsort: result is an ordered permutation, only the array is touched, the comparator only sees elements of it. */
#include <stdlib.h>
#include "sx.h"
#include "alloc.h"
typedef unsigned char u;
#ifndef N
#define N 4
#endif
static u *arr; static long cnt, width; static int bad;
static long calls;
static int cmp (void const *a, void const *b)
{
  long x = (u *) a - arr, y = (u *) b - arr;
  if (x < 0 || x >= cnt * width || x % width || y < 0 || y >= cnt * width || y % width) bad = 1;
  if (++calls > 200) sx_fail ("qsort-terminates");
  int ka = *(u *) a, kb = *(u *) b;
  return ka < kb ? -1 : ka > kb;
}
/* order by descending key */
static int rcmp (void const *a, void const *b) { return -cmp (a, b); }
static void run (long n, long w, int rev)
{
  cnt = n; width = w; calls = 0; bad = 0;
  u *p = arr = sx_malloc (n * w), *o = sx_malloc (n * w + 1);
  sx_bytes (p, n * w, "a");
  for (long i = 0; i < n * w; i++) o[i] = p[i];
  qsort (p, n, w, rev ? rcmp : cmp);
  sx_assert (!bad, "qsort-comparator-arguments");
  int un = 0;
  for (long i = 1; i < n; i++) un |= rev ? p[(i - 1) * w] < p[i * w] : p[(i - 1) * w] > p[i * w];
  sx_assert (!un, "qsort-ordered");
  /* permutation of whole elements: every element occurs as often as before */
  for (long i = 0; i < n; i++)
    {
      long before = 0, after = 0;
      for (long j = 0; j < n; j++)
        {
          int eb = 1, ea = 1;
          for (long k = 0; k < w; k++) { eb &= o[j * w + k] == o[i * w + k]; ea &= p[j * w + k] == o[i * w + k]; }
          before += eb; after += ea;
        }
      sx_assert (before == after, "qsort-permutation");
    }
}
int sx_main (void)
{
  switch (sx_case (4))
    {
    case 0: run (sx_choice (N + 1), 1, 0); sx_cover ("bytes"); break;
    case 1: run (sx_choice (N), 2, 0); sx_cover ("records"); break;
    case 2: run (sx_choice (N), 1, 1); sx_cover ("reverse"); break;
    default: run (sx_choice (3), 9, 0); sx_cover ("wide"); break;
    }
  sx_done ();
  return 0;
}
