/* Directories: opendir, readdir and closedir over a kernel that returns the entries in blocks of any size, with deleted entries between
   them and failures anywhere: every live entry comes out once, in order. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/stat.h>
#include <dirent.h>
#include "sx.h"
#ifndef N
#define N 3
#endif
int getdents (int, char *, size_t);
static long n, at, blk, err_at = -1, opened, fail_stat, fail_fcntl, fail_open, fail_mem, calls;
static struct { unsigned long ino; char name[4]; long len; } ent[8];
static char name[] = "dir";
long SX_OVERRIDE (__sys_call) (long s) { return -38; }
long SX_OVERRIDE (__sys_call1) (long s, long a) { if (s == 3 && a == 5 && opened) { opened = 0; return 0; } return -9; }
long SX_OVERRIDE (__sys_call2) (long s, long a, long b)
{
  if (s != 5) return -38;
  if (fail_stat) return -5;
  char *p = (char *) b;
  for (long o = 0; o < 144; o++) p[o] = 0;
  *(unsigned long *) (p + 8) = sx_u64 ("ino"); *(unsigned *) (p + 24) = 040755; *(unsigned long *) (p + 16) = 2;
  *(unsigned long *) (p + 48) = sx_choice (2) ? 17 : 100000;   /* the directory's size is not its block size */
  *(unsigned long *) (p + 56) = blk;
  return 0;
}
long SX_OVERRIDE (__sys_call3) (long s, long a, long b, long c)
{
  if (s == 2)
    {
      sx_assert ((char *) a == name && (b & 3) == 0 && (b & 0x10000), "open-directory");
      if (fail_open) return -20;
      sx_assert (!opened, "open-once");
      opened = 1;
      return 5;
    }
  if (s == 78)
    {
      sx_assert (a == 5 && opened, "getdents-descriptor");
      sx_assert (c == blk, "getdents-size");
      if (calls++ == err_at) return -5;
      char *p = (char *) b; long o = 0;
      long most = at < n ? 1 + sx_choice (n - at) : 0;
      while (most--)
        {
          long len = (19 + ent[at].len + 1 + 7) & -8;
          if (o + len > c) break;
          *(unsigned long *) (p + o) = ent[at].ino;
          *(unsigned long *) (p + o + 8) = at + 1;
          *(unsigned short *) (p + o + 16) = len;
          for (long i = 0; i <= ent[at].len; i++) p[o + 18 + i] = ent[at].name[i];
          at++; o += len;
        }
      return o;
    }
  return -38;
}
int SX_OVERRIDE (fcntl) (int fd, int cmd, ...) { sx_assert (fd == 5 && cmd == 2, "fcntl"); if (fail_fcntl) { errno = 7; return -1; } return 0; }
void *SX_OVERRIDE (calloc) (size_t a, size_t b) { if (fail_mem) { errno = 12; return 0; } return sx_zmalloc (a * b); }
void *SX_OVERRIDE (malloc) (size_t b) { return sx_zmalloc (b); }
void SX_OVERRIDE (free) (void *p) { sx_free (p); }
extern char **environ;
int sx_main (void)
{
  static char *e[] = { 0 };
  environ = e;
  long w = sx_case (3);
  if (w == 0)
    {
      if (sx_choice (2)) { DIR *d = opendir (""); sx_assert (d == 0 && errno == ENOENT, "empty-name"); sx_cover ("refused"); sx_done (); }
      blk = 64;
      long k = sx_choice (4); int want = 0;
      if (k == 0) fail_open = 1, want = 20;
      if (k == 1) fail_stat = 1, want = 5;
      if (k == 2) fail_fcntl = 1, want = 7;
      if (k == 3) fail_mem = 1, want = 12;
      DIR *d = opendir (name);
      sx_assert (d == 0, "opendir-failure");
      sx_assert (errno == want, "opendir-errno");
      sx_assert (!opened, "opendir-leak");
      sx_assert (closedir (0) == -1 && errno == EINVAL, "closedir-null");
      sx_cover ("refused"); sx_done ();
    }
  n = sx_choice (N + 1);
  blk = sx_choice (2) ? 48 : 200;
  for (long i = 0; i < n; i++)
    {
      ent[i].ino = sx_choice (2) ? 0 : sx_u64 ("ino");
      ent[i].len = 1 + sx_choice (2);
      for (long j = 0; j < ent[i].len; j++) ent[i].name[j] = sx_int (1, 255, "name");
    }
  if (w == 2) err_at = sx_choice (3);
  errno = 0;
  DIR *d = opendir (name);
  sx_assert (d != 0, "opendir");
  for (long i = 0; ; i++)
    {
      errno = 77;
      struct dirent *p = readdir (d);
      if (p == 0)
        {
          if (w == 2 && calls > err_at) { sx_assert (errno == 5, "readdir-errno"); sx_cover ("failure"); break; }
          sx_assert (errno == 77, "errno-at-end");
          for (; i < n; i++) sx_assert (ent[i].ino == 0, "entry-lost");
          sx_cover ("all");
          break;
        }
      while (i < n && ent[i].ino == 0) i++;
      sx_assert (i < n, "entry-too-many");
      if (i >= n) break;
      sx_assert (p->d_ino == ent[i].ino && p->d_off == i + 1, "inode");
      for (long j = 0; j <= ent[i].len; j++) sx_assert (p->d_name[j] == ent[i].name[j], "name");
      sx_cover ("entry");
    }
  sx_assert (closedir (d) == 0 && !opened, "closedir");
  sx_done ();
  return 0;
}
