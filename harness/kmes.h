/* The mes interpreter over a modelled kernel: host files are read-only files, standard input is
   K_STDIN, output is recorded per descriptor.  Used by whole-interpreter harnesses. */
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <sys/time.h>
#include <time.h>
#include "mes/lib.h"
#include "mes/mes.h"
#include "sx.h"
#define K_STDIN 0
#ifndef K_ECHO
#define K_ECHO 0
#endif
struct kfile { int used, w, made; char *data; long size, pos; };
static struct kfile kf[80];
static struct { int used; char name[40]; char *data; long size; long mode; } k_made[6];
static char k_out[3][4096]; static long k_outn[3];      /* what was written to 0 (unused), 1, 2 */
static int k_exit_ok = -1;                                /* the exit status the test expects */
static int k_quiet;
int main (int argc, char **argv, char **envp);
static long k_slen (char const *s) { long n = 0; while (s[n]) n++; return n; }
static int k_eq (char const *a, char const *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
static void k_copy (char *d, char const *s, long n) { for (long i = 0; i < n; i++) d[i] = s[i]; }
/* files of the test itself */
static struct { char const *name; char *data; long size; } k_files[8]; static int k_nfiles;
static void k_file (char const *name, char *data, long size) { k_files[k_nfiles].name = name; k_files[k_nfiles].data = data; k_files[k_nfiles++].size = size; }
static int k_expect_error; static struct scm *k_error_key;
static void k_exit (int code)
{
  sx_print ("exit", code);
  if (k_expect_error > 0) { sx_assert (code != 0, "error-status"); sx_cover ("error"); sx_done (); }
  if (k_exit_ok >= 0) { sx_assert (code == k_exit_ok, "exit-status"); sx_done (); }
  if (code) sx_fail ("unexpected-exit");
  sx_done ();
}
void SX_OVERRIDE (_exit) (int code) { k_exit (code); }
void *SX_OVERRIDE (malloc) (size_t n) { return sx_zmalloc (n); }
static long k_write (long fd, char const *p, long n)
{
  if (fd >= 1 && fd <= 2)
    {
      long m = k_outn[fd] + n > 4096 ? 4096 - k_outn[fd] : n;
      k_copy (k_out[fd] + k_outn[fd], p, m);
      k_outn[fd] += m;
#ifdef SX_NATIVE
      char b[4100]; k_copy (b, p, n > 4000 ? 4000 : n); b[n > 4000 ? 4000 : n] = 0; sx_print (b, fd);
#else
      if (K_ECHO) { char b[4100]; k_copy (b, p, n > 4000 ? 4000 : n); b[n > 4000 ? 4000 : n] = 0; sx_print (b, fd); }
#endif
      return n;
    }
  struct kfile *f = kf + fd;
  if (fd < 0 || fd >= 80 || !f->used || !f->w || !f->made) return -9;
  if (f->pos + n > 2000) return -27;
  k_copy (f->data + f->pos, p, n); f->pos += n; if (f->pos > k_made[f->made - 1].size) k_made[f->made - 1].size = f->pos;
  return n;
}
#ifndef HDIR
#define HDIR "/verif/harness/scm/"
#endif
/* files the program makes */
static int k_made_find (char const *name) { for (int i = 0; i < 6; i++) if (k_made[i].used && k_eq (k_made[i].name, name)) return i; return -1; }
static long k_fsize (struct kfile *f) { return f->made ? k_made[f->made - 1].size : f->size; }
static long k_open (char const *name, long flags, long mode)
{
  int m = k_made_find (name);
  if (name[0] == 'n' && name[1] == 'o' && name[2] == ':') return -ENOENT;
  if (m < 0 && (flags & 0x40))
    for (int i = 0; i < 6 && m < 0; i++)
      if (!k_made[i].used)
        {
          m = i; k_made[i].used = 1; k_copy (k_made[i].name, name, k_slen (name) + 1);
          k_made[i].data = sx_zmalloc (2000); k_made[i].size = 0; k_made[i].mode = mode;
        }
  if (m >= 0)
    {
      if (flags & 0x200) k_made[m].size = 0;
      for (int i = 3; i < 80; i++)
        if (!kf[i].used) { kf[i].used = 1; kf[i].made = m + 1; kf[i].w = flags & 3; kf[i].data = k_made[m].data; kf[i].pos = (flags & 0x400) ? k_made[m].size : 0; return i; }
      return -24;
    }
  void *p = 0; long n = -1;
  char own[200];
  if (name[0] == 's' && name[1] == 'x' && name[2] == ':') /* a file of the harness */
    {
      k_copy (own, HDIR, sizeof HDIR - 1);
      k_copy (own + sizeof HDIR - 1, name + 3, k_slen (name + 3) + 1);
      name = own;
    }
  for (int i = 0; i < k_nfiles; i++) if (k_eq (k_files[i].name, name)) { p = k_files[i].data; n = k_files[i].size; }
  if (n < 0) n = sx_host_file (name, &p);
  if (n < 0) return -ENOENT;
  for (int i = 3; i < 80; i++)
    if (!kf[i].used) { kf[i].used = 1; kf[i].w = 0; kf[i].made = 0; kf[i].data = p; kf[i].size = n; kf[i].pos = 0; return i; }
  return -24;
}
static long k_read (long fd, char *b, long c)
{
  struct kfile *f = kf + fd;
  if (fd < 0 || fd >= 80 || !f->used || f->w == 1) return -9;
  long n = k_fsize (f) - f->pos;
  if (n > c) n = c;
  k_copy (b, f->data + f->pos, n);
  f->pos += n;
  return n;
}
long SX_OVERRIDE (__sys_call) (long s) { if (s == 57) return -11; return s == 39 ? 1234 : -38; }
long SX_OVERRIDE (__sys_call1) (long s, long a)
{
  if (s == 3) { if (a >= 0 && a < 80 && kf[a].used) { kf[a].used = 0; return 0; } return -9; }
  if (s == 201) return 1000;
  if (s == 60) k_exit (a);
  if (s == 57) return -11;
  if (s == 87) { int m = k_made_find ((char *) a); if (m < 0) return -ENOENT; k_made[m].used = 0; return 0; }
  return -38;
}
long SX_OVERRIDE (__sys_call2) (long s, long a, long b)
{
  if (s == 21) { void *p; if (k_made_find ((char *) a) >= 0) return 0; return sx_host_file ((char *) a, &p) < 0 ? -ENOENT : 0; }
  if (s == 90) { int m = k_made_find ((char *) a); if (m < 0) return -ENOENT; k_made[m].mode = b; return 0; }
  if (s == 96) { struct timeval *t = (void *) b; (void) t; long *l = (long *) a; l[0] = 1000; l[1] = 0; return 0; }
  if (s == 228) { long *l = (long *) b; l[0] = 1; l[1] = 0; return 0; }
  if (s == 62) { sx_print ("signal", b); if (k_expect_error > 0) { sx_cover ("error"); sx_done (); } sx_fail ("signal"); sx_done (); }
  return -38;
}
long SX_OVERRIDE (__sys_call3) (long s, long a, long b, long c)
{
  if (s == 2) return k_open ((char *) a, b, c);
  if (s == 0) return k_read (a, (char *) b, c);
  if (s == 1) return k_write (a, (char *) b, c);
  if (s == 8)
    {
      struct kfile *f = kf + a;
      if (a < 0 || a >= 80 || !f->used) return -9;
      f->pos = c == 0 ? b : c == 1 ? f->pos + b : k_fsize (f) + b;
      return f->pos;
    }
  return -38;
}
long SX_OVERRIDE (__sys_call4) (long s, long a, long b, long c, long d) { return -38; }
int SX_OVERRIDE (__raise) (int signum) { return SX_OVERRIDE (__sys_call2) (62, 1234, signum); }
ssize_t SX_OVERRIDE (_write) (int fd, void const *p, size_t n) { return k_write (fd, p, n); }
ssize_t SX_OVERRIDE (_read) (int fd, void *p, size_t n) { return k_read (fd, p, n); }

/* builtins of the test */
static void k_builtins (void);
struct scm *init_builtin (struct scm *builtin_type, char const *name, int arity, void *function, struct scm *a);
static struct scm *k_type, *k_alist;
static void k_builtin (char const *name, int arity, void *f) { k_alist = init_builtin (k_type, name, arity, f, k_alist); }
struct scm *SX_ORIG (mes_builtins) (struct scm *a);
struct scm *SX_WRAP (mes_builtins) (struct scm *a)
{
  k_alist = SX_ORIG (mes_builtins) (a);
  k_type = make_builtin_type ();
  k_builtins ();
  return k_alist;
}
#ifndef ARENA
#define ARENA "100000"
#endif
#ifndef MSTACK
#define MSTACK "20000"
#endif
static void k_init (void)
{
  extern int __stdin, __stdout, __stderr;
  __stdin = 0; __stdout = 1; __stderr = 2;
}

/* errors raised by the interpreter: a test that expects one sets k_expect_error */
#ifdef K_CATCH_ERROR
struct scm *SX_ORIG (error) (struct scm *key, struct scm *x);
struct scm *SX_WRAP (error) (struct scm *key, struct scm *x)
{
  if (k_expect_error) { k_error_key = key; sx_cover ("error"); sx_done (); }
  if (k_expect_error < 0) return SX_ORIG (error) (key, x);
  sx_fail ("unexpected-error");
  sx_done ();
  return 0;
}
#endif

/* a failed assert_msg ends the program: the same as an error */
void SX_OVERRIDE (__assert_fail) (char *msg)
{
  if (k_expect_error) { sx_cover ("error"); sx_done (); }
  sx_fail ("unexpected-assertion");
  sx_done ();
}

#define K_BAD(call) do { k_expect_error = 1; call; sx_fail ("no-error"); sx_done (); } while (0)
static struct scm *l1 (struct scm *a) { return cons (a, cell_nil); }
static struct scm *l2 (struct scm *a, struct scm *b) { return cons (a, l1 (b)); }
static struct scm *l3 (struct scm *a, struct scm *b, struct scm *c) { return cons (a, l2 (b, c)); }
static struct scm *k_bool (int b) { return b ? cell_t : cell_f; }

/* run the interpreter on a boot file holding just (sx-run) */
static struct scm *k_run (void);
static struct scm *k_run_ (void) { k_run (); sx_done (); return cell_unspecified; }
static int k_boot (void)
{
  static char *av[] = { "mes", 0 };
  static char *ev[] = { "MES_BOOT=sx-boot.scm", "MES_ARENA=" ARENA, "MES_MAX_ARENA=" ARENA, "MES_STACK=" MSTACK, 
#ifdef MAXSTR
  "MES_MAX_STRING=" MAXSTR,
#endif
  0 };
  k_init ();
  k_file ("sx-boot.scm", "(sx-run)", 8);
  return main (1, av, ev);
}
