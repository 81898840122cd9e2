/* A kernel of files for the libc harnesses: reads may be short or fail, positions are kept per description, pipes cannot seek. */
#include <stddef.h>
#include "sx.h"
struct kf { int open; int ino; long pos; int flags; int pipe; };
struct ki { char const *name; int used; char *data; long size; };
static struct kf k_fd[12];
static struct ki k_ino[6];
static int k_errors, k_short, k_failed, k_wshort;     /* budgets; k_failed counts injected errors */
static long k_last_mode, k_took;
static int k_same (char const *a, char const *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
static int k_newfd (int from) { for (int i = from; i < 12; i++) if (!k_fd[i].open) return i; return -1; }
static int k_file (char const *name, char *data, long size)
{
  for (int i = 0; i < 6; i++) if (!k_ino[i].used) { k_ino[i].used = 1; k_ino[i].name = name; k_ino[i].data = data; k_ino[i].size = size; return i; }
  return -1;
}
static int k_opened (int fd, int ino, int flags, int pipe)
{ k_fd[fd].open = 1; k_fd[fd].ino = ino; k_fd[fd].pos = 0; k_fd[fd].flags = flags; k_fd[fd].pipe = pipe; return fd; }
static long k_open (char const *name, long flags, long mode)
{
  int i, fd;
  for (i = 0; i < 6; i++) if (k_ino[i].used && k_same (k_ino[i].name, name)) break;
  if (i == 6)
    {
      if (!(flags & 0x40)) return -2;
      char *n = sx_zmalloc (20), *d = sx_zmalloc (64);
      for (int j = 0; name[j]; j++) n[j] = name[j];
      i = k_file (n, d, 0);
      k_last_mode = mode;
    }
  else if ((flags & 0xc0) == 0xc0) return -17;
  fd = k_newfd (0);
  if (fd < 0 || i < 0) return -24;
  if ((flags & 0x200) && (flags & 3)) k_ino[i].size = 0;
  return k_opened (fd, i, flags, 0);
}
static int k_bad (long fd) { return fd < 0 || fd >= 12 || !k_fd[fd].open; }
static long k_read (long fd, char *b, long c)
{
  if (k_bad (fd) || (k_fd[fd].flags & 3) == 1) return -9;
  if (k_errors && sx_choice (2)) { k_errors--; k_failed++; return -5; }
  struct kf *f = k_fd + fd;
  long n = k_ino[f->ino].size - f->pos;
  if (n < 0) n = 0;
  if (n > c) n = c;
  if (n > 1 && k_short) { k_short--; n = 1 + sx_choice (n); }
  for (long i = 0; i < n; i++) b[i] = k_ino[f->ino].data[f->pos + i];
  f->pos += n;
  return n;
}
static long k_write (long fd, char const *b, long c)
{
  if (k_bad (fd) || (k_fd[fd].flags & 3) == 0) return -9;
  struct kf *f = k_fd + fd;
  if (k_errors && sx_choice (2)) { k_errors--; k_failed++; return -28; }
  if (k_wshort && c > 1 && sx_choice (2)) { k_wshort--; c = 1 + sx_choice (c - 1); k_failed++; }
  if (c && (f->flags & 0x400)) f->pos = k_ino[f->ino].size;
  k_took += c;
  for (long i = 0; i < c; i++)
    {
      if (f->pos >= 64) return -27;
      while (k_ino[f->ino].size < f->pos) k_ino[f->ino].data[k_ino[f->ino].size++] = 0;
      k_ino[f->ino].data[f->pos++] = b[i];
      if (f->pos > k_ino[f->ino].size) k_ino[f->ino].size = f->pos;
    }
  return c;
}
static long k_seek (long fd, long off, long whence)
{
  if (k_bad (fd)) return -9;
  struct kf *f = k_fd + fd;
  if (f->pipe) return -29;
  long p = whence == 0 ? off : whence == 1 ? f->pos + off : whence == 2 ? k_ino[f->ino].size + off : -1;
  if (p < 0) return -22;
  return f->pos = p;
}
#ifndef K_OWN_CALLS
long SX_OVERRIDE (__sys_call) (long s) { return s == 39 ? 1234 : -38; }
long SX_OVERRIDE (__sys_call1) (long s, long a)
{
  if (s == 3) { if (k_bad (a)) return -9; k_fd[a].open = 0; return 0; }
  return -38;
}
long SX_OVERRIDE (__sys_call2) (long s, long a, long b)
{
  if (s == 33)
    {
      if (k_bad (a) || b < 0 || b >= 12) return -9;
      if (a != b) k_fd[b] = k_fd[a];
      return b;
    }
  if (s == 21) { for (int i = 0; i < 6; i++) if (k_ino[i].used && k_same (k_ino[i].name, (char *) a)) return 0; return -2; }
  return -38;
}
long SX_OVERRIDE (__sys_call3) (long s, long a, long b, long c)
{
  if (s == 2) return k_open ((char *) a, b, c);
  if (s == 0) return k_read (a, (char *) b, c);
  if (s == 1) return k_write (a, (char *) b, c);
  if (s == 8) return k_seek (a, b, c);
  return -38;
}
long SX_OVERRIDE (_write) (int fd, void const *p, size_t n) { return k_write (fd, p, n); }
#endif
void *SX_OVERRIDE (malloc) (size_t n) { return sx_zmalloc (n); }
void SX_OVERRIDE (free) (void *p) { sx_free (p); }
