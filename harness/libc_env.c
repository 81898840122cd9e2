/* The environment: getenv / setenv / unsetenv against an association list, for every history of OPS calls. */
#include <stdlib.h>
#include <string.h>
#include "sx.h"
#include "alloc.h"
extern char **environ;
int setenv (char const *s, char const *v, int overwrite_p);
#ifndef OPS
#define OPS 3
#endif
/* names over {A,B}, values over any byte but NUL */
static char *name (void)
{
  static char const *const n[] = { "A", "B", "AB" };
  char const *p = n[sx_choice (3)];
  char *r = sx_malloc (3); int i = 0;
  while ((r[i] = p[i])) i++;
  return r;
}
static int eq (char const *a, char const *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
static char *value (void) { long n = sx_choice (2); char *v = sx_malloc (n + 1); sx_bytes (v, n, "v"); if (n) sx_assume (v[0] != 0); v[n] = 0; return v; }
/* reference */
static char *mn[16], *mv[16]; static int mc;
static int find (char *n) { for (int i = 0; i < mc; i++) if (mn[i] && eq (mn[i], n)) return i; return -1; }
static void put (char *n, char *v) { mn[mc] = n; mv[mc++] = v; }
static char *entry (char *n, char *v)
{
  char *e = sx_malloc (8), *p = e;
  while (*n) *p++ = *n++;
  *p++ = '=';
  while (*v) *p++ = *v++;
  *p = 0;
  return e;
}
static void check (void)
{
  static char const *const n[] = { "A", "B", "AB", "AA", "C" };
  for (int i = 0; i < 5; i++)
    {
      char *g = getenv (n[i]);
      int k = find ((char *) n[i]);
      sx_assert ((g != 0) == (k >= 0), "getenv-bound");
      if (g && k >= 0) sx_assert (eq (g, mv[k]), "getenv-value");
    }
}
/* any names: two entries, one setenv or unsetenv, lookups, with symbolic names */
static char *anyname (void)
{
  long n = 1 + sx_choice (2);
  char *r = sx_malloc (n + 1);
  sx_bytes (r, n, "name");
  for (int i = 0; i < n; i++) sx_assume (r[i] != 0 & r[i] != '=');
  r[n] = 0;
  return r;
}
static void lookup (char *n)
{
  char *g = getenv (n);
  int k = find (n);
  sx_assert ((g != 0) == (k >= 0), "getenv-bound");
  if (g && k >= 0) sx_assert (eq (g, mv[k]), "getenv-value");
}
static void names (void)
{
  int n0 = 2;
  char *n[3];
  environ = sx_malloc ((n0 + 1) * sizeof (char *));
  for (int i = 0; i < n0; i++)
    {
      n[i] = anyname ();
      char *v = sx_malloc (2); v[0] = 'p' + i; v[1] = 0;
      environ[i] = entry (n[i], v);
      if (find (n[i]) < 0) put (n[i], v);
    }
  environ[n0] = 0;
  n[2] = anyname ();
  lookup (n[2]);
  int k = find (n[2]);
  if (sx_choice (2)) { sx_assert (setenv (n[2], "z", 1) == 0, "setenv-result"); if (k < 0) put (n[2], "z"); else mv[k] = "z"; }
  else { unsetenv (n[2]); for (k = 0; k < mc; k++) if (mn[k] && eq (mn[k], n[2])) mn[k] = 0; }
  for (int i = 0; i < 3; i++) lookup (n[i]);
  sx_cover ("names");
  sx_done ();
}
int sx_main (void)
{
  int n0 = sx_case (5);
  if (n0 == 4) { names (); return 0; }
  /* initial vector of exactly n0 + 1 slots, as the kernel lays it out; duplicates possible */
  environ = sx_malloc ((n0 + 1) * sizeof (char *));
  for (int i = 0; i < n0; i++)
    {
      char *n = name (), *v = value ();
      environ[i] = entry (n, v);
      if (find (n) < 0) put (n, v); else sx_cover ("duplicate");
    }
  environ[n0] = 0;
  check ();
  for (int i = 0; i < (n0 > 1 ? OPS - 1 : OPS); i++)
    {
      char *n = name ();
      int k = find (n);
      if (sx_choice (2))
        {
          char *v = value (); int over = sx_choice (2);
          char *v0 = sx_malloc (2); v0[0] = v[0]; v0[1] = 0; if (v[0]) v0[1] = 0;
          sx_assert (setenv (n, v, over) == 0, "setenv-result");
          /* the caller's strings are not kept */
          if (v[0]) v[0] = 'X';
          if (k < 0) put (n, v0);
          else if (over) mv[k] = v0;
          sx_cover (k < 0 ? "add" : over ? "replace" : "keep");
        }
      else { unsetenv (n); if (k >= 0) mn[k] = 0; sx_cover ("unset"); }
      check ();
    }
  sx_done ();
  return 0;
}
