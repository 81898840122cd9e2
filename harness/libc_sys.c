/* The system call layer: every wrapper makes its one call with its arguments in their places, hands back what the kernel returned, and turns
   a refusal -1..-4095 into -1 with errno set; structures are the kernel's. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/ioctl.h>
#include <mes/lib.h>
#include "sx.h"
#define MAXC 6
static struct { long nr, n, a[4]; } c[MAXC]; static int cn;
static long ret[MAXC];
static void (*effect) (int i);
static long call (long nr, long n, long a0, long a1, long a2, long a3)
{
  if (cn >= MAXC) { sx_fail ("too-many-calls"); sx_done (); }
  c[cn].nr = nr; c[cn].n = n; c[cn].a[0] = a0; c[cn].a[1] = a1; c[cn].a[2] = a2; c[cn].a[3] = a3;
  if (effect) effect (cn);
  return ret[cn++];
}
long SX_OVERRIDE (__sys_call) (long s) { return call (s, 0, 0, 0, 0, 0); }
long SX_OVERRIDE (__sys_call1) (long s, long a) { return call (s, 1, a, 0, 0, 0); }
long SX_OVERRIDE (__sys_call2) (long s, long a, long b) { return call (s, 2, a, b, 0, 0); }
long SX_OVERRIDE (__sys_call3) (long s, long a, long b, long d) { return call (s, 3, a, b, d, 0); }
long SX_OVERRIDE (__sys_call4) (long s, long a, long b, long d, long e) { return call (s, 4, a, b, d, e); }
ssize_t SX_OVERRIDE (_write) (int fd, void const *p, size_t n) { return call (1, 3, fd, (long) p, n, 0); }
void *SX_OVERRIDE (malloc) (size_t n) { return sx_zmalloc (n); }
int rename (char const *, char const *); int fsync (int); int symlink (char const *, char const *); int nanosleep (struct timespec const *, struct timespec const *);
int setitimer (int, struct itimerval const *, struct itimerval *); int mknod (char const *, mode_t, dev_t); int getdents (int, char *, size_t);
int lstat (char const *, struct stat *); char *_getcwd (char *, size_t); ssize_t readlink (char const *, char *, size_t); long brk (void *);
pid_t getppid (void); uid_t getuid (void), geteuid (void); gid_t getgid (void), getegid (void); int setuid (uid_t), setgid (gid_t);
ssize_t _read (int, void *, size_t); int _open3 (char const *, int, int); int getrusage (int, struct rusage *);
int chdir (char const *); int pipe (int *); unsigned sleep (unsigned);
static long i32 (char const *n) { return (int) sx_int (-0x80000000L, 0x7fffffff, n); }
/* the outcome of one call */
static void expect (long r, long nr, long n, long a0, long a1, long a2)
{
  sx_assert (cn == 1, "one-call");
  sx_assert (c[0].nr == nr, "number");
  sx_assert (c[0].n >= n, "arguments");
  if (n > 0) sx_assert (c[0].a[0] == a0, "first-argument");
  if (n > 1) sx_assert (c[0].a[1] == a1, "second-argument");
  if (n > 2) sx_assert (c[0].a[2] == a2, "third-argument");
  if (ret[0] < 0) { sx_assert (r == -1, "error-result"); sx_assert (errno == -ret[0], "errno"); sx_cover ("error"); }
  else { sx_assert (r == ret[0], "result"); sx_cover ("result"); }
}
/* ids compare as 32 bits */
static char A[8], B[8];
static void put8 (char *p, long o, unsigned long v) { *(unsigned long *) (p + o) = v; }
static unsigned long stv[14];
static void fill_stat (int i)
{
  char *p = (char *) c[i].a[1];
  /* struct stat of the x86_64 kernel: 144 bytes */
  for (long o = 0; o < 144; o++) p[o] = 0;
  static int const off[] = { 0, 8, 16, 40, 48, 56, 64, 72, 88, 104 };
  for (int j = 0; j < 10; j++) put8 (p, off[j], stv[j]);
  *(unsigned *) (p + 24) = stv[10]; *(unsigned *) (p + 28) = stv[11]; *(unsigned *) (p + 32) = stv[12];
}
static void same_stat (struct stat *s)
{
  sx_assert (s->st_dev == stv[0] && s->st_ino == stv[1] && s->st_nlink == stv[2], "stat-identity");
  sx_assert (s->st_rdev == stv[3] && s->st_size == stv[4] && s->st_blksize == stv[5] && s->st_blocks == stv[6], "stat-size");
  sx_assert (s->st_atime == stv[7] && s->st_mtime == stv[8] && s->st_ctime == stv[9], "stat-time");
  sx_assert (s->st_mode == (unsigned) stv[10] && s->st_uid == (unsigned) stv[11] && s->st_gid == (unsigned) stv[12], "stat-mode");
  sx_assert (!!S_ISDIR (s->st_mode) == ((stv[10] & 0170000) == 0040000) && !!S_ISREG (s->st_mode) == ((stv[10] & 0170000) == 0100000), "stat-kind");
}
static long tv[4];
static void fill_time (int i) { long *p = (long *) c[i].a[c[i].nr == 96 ? 0 : 1]; p[0] = tv[0]; p[1] = tv[1]; }
static void fill_timer (int i) { long *p = (long *) c[i].a[2], *q = (long *) c[i].a[1]; for (int j = 0; j < 4; j++) { p[j] = tv[j]; } stv[0] = q[2]; stv[1] = q[0]; stv[2] = q[1]; stv[3] = q[3]; }
static void look_sleep (int i) { long *q = (long *) c[i].a[0], *p = (long *) c[i].a[1]; stv[0] = q[0]; stv[1] = q[1]; if (ret[i] < 0) { p[0] = tv[0]; p[1] = tv[1]; } }
static long want_handler, restorer, mask, flags;
static void look_sigaction (int i) { long *p = (long *) c[i].a[1], *o = (long *) c[i].a[2]; want_handler = p[0]; flags = p[1]; restorer = p[2]; mask = p[3]; o[0] = 1; }
static long pp[2];
static void fill_pipe (int i) { int *p = (int *) c[i].a[0]; p[0] = pp[0]; p[1] = pp[1]; }
static void handler (int s) {}
int sx_main (void)
{
  static char *e[] = { 0 };
  extern char **environ;
  environ = e;
  long w = sx_case (56), x = i32 ("x"), y = i32 ("y"), r; unsigned long z = sx_u64 ("z"), q = sx_u64 ("q");
  int neg = sx_choice (2);
  for (int i = 1; i < MAXC; i++) ret[i] = -38;
  ret[0] = neg ? sx_int (-4095, -1, "ret") : sx_int (0, 0x7fffffff, "ret");
  long lret = neg ? ret[0] : sx_int (0, 0x7fffffffffffffff, "lret");
  void *P = A, *Q = B; long p = (long) P, pq = (long) Q;
  errno = 99;
  switch (w)
    {
    case 0: expect (access (P, x), 21, 2, p, x, 0); break;
    case 1: expect (chdir (P), 80, 1, p, 0, 0); break;
    case 2: expect (chmod (P, x), 90, 2, p, x, 0); break;
    case 3: expect (clock_gettime (x, Q), 228, 2, x, pq, 0); break;
    case 4: expect (close (3), 3, 1, 3, 0, 0); break;
    case 5: expect (dup (x), 32, 1, x, 0, 0); break;
    case 6: if (neg) expect (dup2 (x, y), 33, 2, x, y, 0); else { x = sx_int (0, 9, "fd"); y = sx_int (0, 9, "fd"); ret[0] = y; expect (dup2 (x, y), 33, 2, x, y, 0); } break;
    case 7: expect (execve (P, Q, (char *const *) e), 59, 3, p, pq, (long) e); break;
    case 8: expect (fork (), 57, 0, 0, 0, 0); break;
    case 9: expect (fsync (x), 74, 1, x, 0, 0); break;
    case 10: ret[0] = lret; r = _read (x, P, z); expect (r, 0, 3, x, p, z); break;
    case 11: if (!neg) ret[0] = sx_int (0, 20, "fd"); expect (_open3 (P, x, y), 2, 3, p, x, y); break;
    case 12: expect (getdents (x, P, z), 78, 3, x, p, z); break;
    case 13: expect (getpid (), 39, 0, 0, 0, 0); break;
    case 14: expect (getppid (), 110, 0, 0, 0, 0); break;
    case 15: if (neg) sx_kill (); expect (getuid (), 102, 0, 0, 0, 0); break;
    case 16: if (neg) sx_kill (); expect (geteuid (), 107, 0, 0, 0, 0); break;
    case 17: if (neg) sx_kill (); expect (getgid (), 104, 0, 0, 0, 0); break;
    case 18: if (neg) sx_kill (); expect (getegid (), 108, 0, 0, 0, 0); break;
    case 19: r = setuid (x); sx_assert ((int) c[0].a[0] == x, "first-argument"); c[0].a[0] = x; expect (r, 105, 1, x, 0, 0); break;
    case 20: r = setgid (x); sx_assert ((int) c[0].a[0] == x, "first-argument"); c[0].a[0] = x; expect (r, 106, 1, x, 0, 0); break;
    case 21: expect (getrusage (x, Q), 98, 2, x, pq, 0); break;
    case 22: expect (gettimeofday (P, Q), 96, 2, p, pq, 0); break;
    case 23: expect (ioctl3 (x, z, q), 16, 3, x, z, q); break;
    case 24: expect (kill (x, y), 62, 2, x, y, 0); break;
    case 25: expect (link (P, Q), 86, 2, p, pq, 0); break;
    case 26: expect (mkdir (P, x), 83, 2, p, x, 0); break;
    case 27: r = mknod (P, x, z); expect (r, 133, 3, p, x, z); break;
    case 28: expect (nanosleep (P, Q), 35, 2, p, pq, 0); break;
    case 29: expect (rename (P, Q), 82, 2, p, pq, 0); break;
    case 30: expect (rmdir (P), 84, 1, p, 0, 0); break;
    case 31: expect (setitimer (x, P, Q), 38, 3, x, p, pq); break;
    case 32: expect (symlink (P, Q), 88, 2, p, pq, 0); break;
    case 33: expect (unlink (P), 87, 1, p, 0, 0); break;
    case 34: expect (waitpid (x, Q, y), 61, 3, x, pq, y); sx_assert (c[0].n == 4 && c[0].a[3] == 0, "rusage"); break;
    case 35: expect (wait (Q), 61, 3, -1, pq, 0); sx_assert (c[0].n == 4 && c[0].a[3] == 0, "rusage"); break;
    case 36: ret[0] = lret; expect (readlink (P, Q, z), 89, 3, p, pq, z); break;
    case 37: { r = (long) _getcwd (P, z); sx_assert (r == (neg ? 0 : p), "getcwd"); expect (neg ? -1 : ret[0], 79, 2, p, z, 0); break; }
    case 38: { char *g = getcwd (P, z); sx_assert (g == (neg ? 0 : P), "getcwd"); expect (neg ? -1 : ret[0], 79, 2, p, z, 0); break; }
    case 39: { x = sx_int (3, 30, "fd"); expect (write (x, P, z), 1, 3, x, p, z); break; }
    case 40: sx_assert (c[0].nr == 0, ""); expect (sigprocmask (x, P, Q), 14, 3, x, p, pq); sx_assert (c[0].n == 4 && c[0].a[3] == 8, "sigset-size"); break;
    case 41:
      {
        x = sx_int (1, 64, "sig");
        ret[0] = neg ? ret[0] : 0;
        effect = look_sigaction;
        sighandler_t h = sx_choice (2) ? handler : SIG_IGN;
        sighandler_t o = signal (x, h);
        sx_assert (cn == 1 && c[0].nr == 13 && c[0].n == 4 && c[0].a[0] == x && c[0].a[3] == 8, "sigaction-call");
        sx_assert (want_handler == (long) h, "handler");
        sx_assert ((flags & 0x04000000) != 0 && restorer != 0, "restorer");
        sx_assert (mask == 1UL << (x - 1), "mask");
        if (neg) sx_assert (o == SIG_ERR && errno == -ret[0], "signal-error");
        else sx_assert (o == SIG_IGN, "old-handler");
        sx_cover ("signal");
        break;
      }
    case 42: case 43: case 44:
      {
        struct stat s;
        for (int i = 0; i < 13; i++) stv[i] = sx_u64 ("stat");
        effect = neg ? 0 : fill_stat;
        if (!neg) ret[0] = 0;
        r = w == 42 ? stat (P, &s) : w == 43 ? lstat (P, &s) : fstat (x, &s);
        expect (r, w == 42 ? 4 : w == 43 ? 6 : 5, 2, w == 44 ? x : p, (long) &s, 0);
        if (!neg) { same_stat (&s); sx_cover ("stat"); }
        break;
      }
    case 45:
      { /* remove: rmdir for directories, unlink for others */
        for (int i = 0; i < 13; i++) stv[i] = sx_u64 ("stat");
        effect = fill_stat;
        if (!neg) ret[0] = 0;
        ret[1] = sx_choice (2) ? sx_int (-4095, -1, "ret1") : 0;
        /* stand-in: only the first call fills a structure */
        if (neg) effect = 0;
        
        
        { void fill_first (int i); effect = neg ? 0 : fill_first; }
        r = remove (P);
        sx_assert (c[0].nr == 4 || c[0].nr == 6, "remove-stat");
        if (neg) { sx_assert (cn == 1 && r == -1 && errno == -ret[0], "remove-missing"); break; }
        int dir = (stv[10] & 0170000) == 0040000;
        sx_assert (cn == 2 && c[1].nr == (dir ? 84 : 87) && c[1].a[0] == p, "remove-call");
        sx_assert (r == (ret[1] < 0 ? -1 : 0), "remove-result");
        if (ret[1] < 0) sx_assert (errno == -ret[1], "remove-errno");
        sx_cover ("remove");
        break;
      }
    case 46:
      {
        tv[0] = sx_u64 ("sec"); tv[1] = sx_u64 ("usec");
        effect = neg ? 0 : fill_time; if (!neg) ret[0] = 0;
        time_t t = 7, g = time (sx_choice (2) ? &t : 0);
        if (neg) sx_assert (g == -1, "time-error");
        else sx_assert (g == tv[0] && (t == 7 || t == tv[0]), "time");
        sx_cover ("time");
        break;
      }
    case 47:
      { /* the structures of the clocks */
        tv[0] = sx_u64 ("sec"); tv[1] = sx_u64 ("nsec"); effect = fill_time; ret[0] = 0;
        struct timespec ts; struct timeval v; struct timezone zone;
        if (sx_choice (2)) { clock_gettime (0, &ts); sx_assert (ts.tv_sec == tv[0] && ts.tv_nsec == tv[1], "timespec"); }
        else { gettimeofday (&v, &zone); sx_assert (v.tv_sec == tv[0] && v.tv_usec == tv[1], "timeval"); }
        sx_cover ("clock");
        break;
      }
    case 48:
      { /* alarm */
        for (int i = 0; i < 4; i++) tv[i] = sx_int (0, 1000000, "tv");
        ret[0] = 0; effect = fill_timer;
        x = sx_int (0, 0x7fffffff, "seconds");
        r = alarm (x);
        sx_assert (cn == 1 && c[0].nr == 38 && c[0].a[0] == 0, "alarm-call");
        sx_assert (stv[0] == x && stv[1] == 0 && stv[2] == 0 && stv[3] == 0, "alarm-timer");
        sx_assert (r == tv[2], "alarm-result");
        sx_cover ("alarm");
        break;
      }
    case 49:
      {
        pp[0] = i32 ("p"); pp[1] = i32 ("p");
        int fds[2] = { 0, 0 };
        effect = neg ? 0 : fill_pipe; if (!neg) ret[0] = 0;
        r = pipe (fds);
        expect (r, 22, 1, (long) fds, 0, 0);
        if (!neg) sx_assert (fds[0] == (int) pp[0] && fds[1] == (int) pp[1], "pipe");
        break;
      }
    case 50:
      { /* raise signals this process */
        ret[0] = sx_int (1, 0x7fffffff, "pid"); ret[1] = neg ? sx_int (-4095, -1, "ret1") : 0;
        x = sx_int (1, 64, "sig");
        r = raise (x);
        sx_assert (cn == 2 && c[0].nr == 39 && c[1].nr == 62 && c[1].a[0] == ret[0] && c[1].a[1] == x, "raise-call");
        sx_assert (r == (neg ? -1 : 0), "raise-result");
        sx_cover ("raise");
        break;
      }
    case 51:
      { /* isatty */
        if (!neg) ret[0] = 0;
        static char buf[100];
        r = isatty (x);
        sx_assert (cn == 1 && c[0].nr == 16 && c[0].a[0] == x && c[0].a[1] == 0x5401, "isatty-call");
        sx_assert ((r != 0) == !neg, "isatty");
        sx_cover ("isatty");
        break;
      }
    case 52:
      { /* brk hands back the kernel's break */
        ret[0] = sx_int (0, 0x7fffffffffff, "brk");
        r = brk ((void *) z);
        sx_assert (cn == 1 && c[0].nr == 12 && c[0].a[0] == z && r == ret[0], "brk");
        sx_cover ("brk");
        break;
      }
    case 53: r = lseek (5, z, 0); /* asks where it is first */
      {
        if (neg) { sx_assert (r == -1 && errno == -ret[0], "lseek-error"); break; }
        sx_assert (cn == 2 && c[1].nr == 8 && c[1].a[0] == 5 && c[1].a[1] == z && c[1].a[2] == 0, "lseek-call");
        sx_assert (r == -1 && errno == 38, "lseek-error");
        sx_cover ("lseek");
        break;
      }
    case 54:
      { /* execv passes the environment */
        r = execv (P, Q);
        expect (r, 59, 3, p, pq, (long) e);
        break;
      }
    case 55:
      {
        x = sx_int (0, 0x7fffffff, "seconds"); tv[0] = sx_int (0, 0x7fffffff, "left"); tv[1] = 5;
        effect = look_sleep;
        ret[0] = neg ? -4 : 0;
        r = sleep (x);
        sx_assert (cn == 1 && c[0].nr == 35 && stv[0] == x && stv[1] == 0, "sleep-call");
        sx_assert (r == (neg ? tv[0] : 0), "sleep-left");
        sx_cover ("sleep"); break;
      }
    }
  sx_done ();
  return 0;
}
void fill_first (int i) { if (i == 0) fill_stat (i); }
