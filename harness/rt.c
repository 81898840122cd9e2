/* Native runtime for replaying a path: the sx_* primitives over recorded inputs.
   Linked with glibc and AddressSanitizer; the code under test has its symbols prefixed "mes_". */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

static unsigned long long *in; static long nin, pos;
static unsigned long long next (void) { return pos < nin ? in[pos++] : (pos++, 0); }
void sx_bytes (void *p, long n, char const *name) { volatile unsigned char *c = p; for (long i = 0; i < n; i++) c[i] = next (); }
long sx_int (long lo, long hi, char const *name)
{
  long v = next ();
  if (v < lo || v > hi) { printf ("SX-PRUNED int\n"); exit (0); }
  return v;
}
long sx_u64 (char const *name) { return next (); }
long sx_choice (long n) { return next (); }
long sx_case (long n) { return next (); }
long sx_concrete (long v) { return v; }
void sx_assume (int c) { if (!c) { printf ("SX-PRUNED assume\n"); fflush (stdout); _Exit (0); } }
void sx_assert (int c, char const *id) { if (!c) { printf ("SX-FAIL %s\n", id); fflush (stdout); _Exit (1); } }
void sx_fail (char const *id) { sx_assert (0, id); }
void sx_cover (char const *id) {}
void *sx_malloc (long n) { void *p = malloc (n); if (p) memset (p, 0xa5, n); return p; }
void *sx_zmalloc (long n) { return calloc (1, n); }
void sx_free (void *p) { free (p); }
long sx_obj_size (void *p) { return malloc_usable_size (p); }
int __asan_address_is_poisoned (void const volatile *);
int sx_readable (void const *p, long n) { for (long i = 0; i < n; i++) if (__asan_address_is_poisoned ((char *) p + i)) return 0; return 1; }
void *__asan_region_is_poisoned (void *, size_t);
int sx_same_object (void *p, void *q) { return 1; }
void sx_done (void) { fflush (stdout); _Exit (0); }
void sx_kill (void) { fflush (stdout); _Exit (0); }
int sx_engine (void) { return 0; }
long sx_select (int c, long a, long b) { return c ? a : b; }
long sx_host_file (char const *name, void **buf)
{
  struct stat st;
  if (stat (name, &st) || !S_ISREG (st.st_mode)) return -1;
  FILE *f = fopen (name, "rb");
  if (!f) return -1;
  *buf = calloc (1, st.st_size + 1);
  long n = fread (*buf, 1, st.st_size, f);
  fclose (f);
  return n;
}
void sx_print (char const *s, long v) { if (getenv ("SX_PRINT")) fprintf (stderr, "%s %ld\n", s, v); }
void sx_mode (int m) {}
/* Run a real x86 or x86_64 image as a process of its own: a static ELF file of a starting stub, the code at CODE, and data and stack from DATA,
   with the N machine-word arguments on the stack.  The stub writes result, stack pointer and frame pointer.  WORD is 4 or 8. */
long sx_native_call (int word, unsigned long code, unsigned char const *c, long cn, unsigned long data, unsigned char const *d, long dn, long total, unsigned long fn, long const *arg, int n)
{
  unsigned long stub = 0x8000000, sp = data + total - 256 - word * n, bp = data + total - 64, scratch = data + total;
  long pg = 4096, cs = (cn + pg - 1) & -pg, size = 2 * pg + cs + total;
  unsigned char *f = calloc (1, size), *p;
  unsigned long seg[3][3] = { { stub, pg, pg }, { code, 2 * pg, cs }, { data, 2 * pg + cs, total } };
  memcpy (f, "\177ELF", 4);
  f[4] = word / 4; f[5] = 1; f[6] = 1;
#define H(o, v) (*(unsigned short *) (f + (o)) = (v))
#define W4(o, v) (*(unsigned *) (f + (o)) = (v))
#define W8(o, v) (*(unsigned long *) (f + (o)) = (v))
  H (16, 2); H (18, word == 8 ? 62 : 3); W4 (20, 1);
  if (word == 8)
    {
      W8 (24, stub); W8 (32, 64); H (52, 64); H (54, 56); H (56, 3);
      for (int i = 0; i < 3; i++)
        {
          long o = 64 + 56 * i;
          W4 (o, 1); W4 (o + 4, 7); W8 (o + 8, seg[i][1]); W8 (o + 16, seg[i][0]); W8 (o + 24, seg[i][0]); W8 (o + 32, seg[i][2]); W8 (o + 40, seg[i][2] + (i == 2 ? pg : 0)); W8 (o + 48, pg);
        }
    }
  else
    {
      W4 (24, stub); W4 (28, 52); H (40, 52); H (42, 32); H (44, 3);
      for (int i = 0; i < 3; i++)
        {
          long o = 52 + 32 * i;
          W4 (o, 1); W4 (o + 4, seg[i][1]); W4 (o + 8, seg[i][0]); W4 (o + 12, seg[i][0]); W4 (o + 16, seg[i][2]); W4 (o + 20, seg[i][2] + (i == 2 ? pg : 0)); W4 (o + 24, 7); W4 (o + 28, pg);
        }
    }
  p = f + pg;
#define B(...) do { unsigned char b[] = { __VA_ARGS__ }; memcpy (p, b, sizeof b); p += sizeof b; } while (0)
#define I4(v) do { unsigned w = (v); memcpy (p, &w, 4); p += 4; } while (0)
  B (0xbc); I4 (sp); B (0xbd); I4 (bp); B (0xb8); I4 (fn); B (0xff, 0xd0);    /* mov $sp,%esp; mov $bp,%ebp; mov $fn,%eax; call *%eax */
  if (word == 8) B (0x48);
  B (0x89, 0xe2);                       /* mov %esp,%edx */
  B (0xbc); I4 (scratch + 256); B (0x55, 0x52, 0x50);    /* mov $scratch,%esp; push %ebp, %edx, %eax */
  if (word == 8)
    { B (0x48, 0x89, 0xe6, 0xbf); I4 (1); B (0xba); I4 (24); B (0xb8); I4 (1); B (0x0f, 0x05, 0x31, 0xff, 0xb8); I4 (60); B (0x0f, 0x05); }
  else
    { B (0x89, 0xe1, 0xbb); I4 (1); B (0xba); I4 (12); B (0xb8); I4 (4); B (0xcd, 0x80, 0x31, 0xdb, 0xb8); I4 (1); B (0xcd, 0x80); }
  memcpy (f + seg[1][1], c, cn);
  memcpy (f + seg[2][1], d, dn);
  for (int i = 0; i < n; i++) memcpy (f + seg[2][1] + (sp - data) + word * i, arg + i, word);
  char name[64], cmd[80];
  sprintf (name, "./image-%d", getpid ());
  FILE *o = fopen (name, "wb");
  if (!o || fwrite (f, 1, size, o) != size || fclose (o) || chmod (name, 0700)) { printf ("cannot write the image\n"); fflush (stdout); _Exit (0); }
  free (f);
  sprintf (cmd, "timeout 5 %s", name);
  FILE *r = popen (cmd, "r");
  unsigned char res[24] = { 0 };
  long got = r ? fread (res, 1, 3 * word, r) : 0;
  int st = r ? pclose (r) : -1;
  unlink (name);
  if (WIFEXITED (st) && (WEXITSTATUS (st) == 126 || WEXITSTATUS (st) == 127)) { printf ("the image does not start\n"); fflush (stdout); _Exit (0); }
  if (got != 3 * word) { printf ("SX-FAIL the program ends with status 0x%x\n", st); fflush (stdout); _Exit (1); }
  unsigned long v[3] = { 0 };
  for (int i = 0; i < 3; i++) memcpy (v + i, res + word * i, word);
  if (v[1] != sp || v[2] != bp) { printf ("SX-FAIL stack or frame pointer not restored\n"); fflush (stdout); _Exit (1); }
  return v[0];
}
extern int mes_sx_main (void) __attribute__ ((weak));
extern int sx_main (void) __attribute__ ((weak));
int main (int argc, char **argv)
{
  char *f = getenv ("SX_INPUT");
  FILE *i = f ? fopen (f, "r") : 0;
  in = malloc (sizeof *in * 4000000);
  unsigned long long x;
  while (i && fscanf (i, "%llu", &x) == 1) in[nin++] = x;
  extern char *sx_patches[];
  for (char **p = sx_patches; *p; p += 2)
    {
      mprotect ((void *) ((unsigned long) p[0] & ~4095UL), 8192, PROT_READ | PROT_WRITE | PROT_EXEC);
      p[0][0] = 0xe9;
      int rel = p[1] - (p[0] + 5);
      memcpy (p[0] + 1, &rel, 4);
    }
  sx_main ();
  fflush (stdout);
  _Exit (0);
}
