/* Writing: for every history of output (and, in update modes, input and positioning) calls on a stream opened in any mode on an existing or
   new file, the file holds what was written where it was written, results count what the kernel took, and refusals are reported. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <mes/lib.h>
#include "kfile.h"
#ifndef OPS
#define OPS 2
#endif
extern char **environ;
extern int __stdin, __stdout, __stderr;
static char ref[64]; static long size, pos; static int can_read, can_write, append;
static int ino_of (char const *n) { for (int i = 0; i < 6; i++) if (k_ino[i].used && k_same (k_ino[i].name, n)) return i; return -1; }
static void put (char const *p, long n)
{
  if (append && n) pos = size;
  for (long i = 0; i < n; i++) { while (size < pos) ref[size++] = 0; ref[pos++] = p[i]; if (pos > size) size = pos; }
}
static void holds (int ino)
{
  sx_assert (k_ino[ino].size == size, "size");
  for (long i = 0; i < size; i++) sx_assert (k_ino[ino].data[i] == ref[i], "content");
}
static void op (FILE *f, int fd, int ino)
{
  int bad = k_failed; long n, k, took = k_took; char b[6]; int c;
  switch (sx_choice (can_read ? 9 : 6))
    {
    case 0:
      c = sx_int (-1, 256, "c");
      k = sx_choice (2) ? fputc (c, f) : putc (c, f);
      if (!can_write || k_failed > bad) { sx_assert (k == EOF, "fputc-error"); break; }
      sx_assert (k == (c & 255), "fputc");
      b[0] = c; put (b, 1); sx_cover ("fputc");
      break;
    case 1:
      n = sx_choice (4);
      for (long i = 0; i < n; i++) b[i] = sx_int (1, 255, "s");
      b[n] = 0;
      k = fputs (b, f);
      if (!can_write) { sx_assert (k == EOF, "fputs-error"); break; }
      if (k_failed > bad) { sx_assert (k == EOF, "fputs-error"); sx_cover ("refused"); sx_done (); }
      sx_assert (k >= 0, "fputs");
      put (b, n); sx_cover ("fputs");
      break;
    case 2:
      {
        long s = 1 + sx_choice (2); n = sx_choice (3);
        sx_bytes (b, s * n, "data");
        k = fwrite (b, s, n, f);
        if (!can_write) { sx_assert (k == 0, "fwrite-error"); break; }
        if (k_failed > bad)
          {
            sx_assert (k < n && k == (k_took - took) / s, "fwrite-short");
            sx_cover ("refused"); sx_done ();
          }
        sx_assert (k == n, "fwrite");
        put (b, s * n); sx_cover ("fwrite");
        break;
      }
    case 3:
      n = sx_choice (4);
      sx_bytes (b, n, "data");
      k = write (fd, b, n);
      if (!can_write) { sx_assert (k == -1 && errno == EBADF, "write-error"); break; }
      if (k == -1) { sx_assert (k_failed > bad && errno == 28, "write-error"); break; }
      sx_assert (k == n || (k_failed > bad && k < n), "write");
      put (b, k); sx_cover ("write");
      break;
    case 4:
      {
        int wh = sx_choice (3);
        long off = sx_choice (4), to;
        if (wh) off -= 2;
        to = (wh == 0 ? 0 : wh == 1 ? pos : size) + off;
        k = fseek (f, off, wh);
        if (to < 0) sx_assert (k == -1, "seek-refused");
        else { sx_assert (k == 0, "seek"); pos = to; }
        sx_cover ("seek");
        break;
      }
    case 5:
      k = ftell (f);
      sx_assert (k == pos, "ftell"); sx_cover ("ftell");
      break;
    case 6:
      c = fgetc (f);
      if (pos >= size) sx_assert (c == EOF, "fgetc-end");
      else { sx_assert (c == (ref[pos] & 255), "fgetc"); pos++; }
      sx_cover ("fgetc");
      break;
    case 7: case 8:
      n = 1 + sx_choice (3);
      k = sx_choice (2) ? fread (b, 1, n, f) : read (fd, b, n);
      sx_assert (k == (pos >= size ? 0 : size - pos < n ? size - pos : n), "fread-count");
      for (long i = 0; i < k; i++) sx_assert (b[i] == ref[pos + i], "fread");
      pos += k; sx_cover ("fread");
      break;
    }
}
int sx_main (void)
{
  static char *const mode[] = { "r", "r+", "w", "w+", "a", "a+", "rb", "rb+", "wb+", "ab+", "r+b", "wb", "ab", "a+b", "w+b" };
  static char const kind[] = "rRwWaArRWARwaAW";
  long w = sx_case (7);
  __stdin = 0; __stdout = 1; __stderr = 2;
  static char *e[2], *const v[] = { "MES_READ_BUFFER=1", "MES_READ_BUFFER=100" };
  e[0] = v[w == 6 ? 0 : sx_choice (2)]; environ = e;
  int tty = k_file ("tty", sx_zmalloc (64), 0);
  for (int i = 0; i < 3; i++) k_opened (i, tty, 2 | 0x400, 1);
  if (w == 6)
    { /* the standard streams */
      k_errors = sx_choice (2);
      k_wshort = !k_errors && sx_choice (2);
      for (int i = 0; i < OPS; i++)
        {
          char b[4]; long n = sx_choice (3), k; int c, bad = k_failed, nl = 0;
          for (long j = 0; j < n; j++) b[j] = sx_int (1, 255, "s");
          b[n] = 0;
          switch (sx_choice (6))
            {
            case 0: k = puts (b); b[n++] = '\n'; break;
            case 1: c = sx_int (0, 255, "c"); k = putchar (c); b[0] = c; n = 1; if (k_failed == bad) sx_assert (k == c, "putchar"); break;
            case 2: k = oputs (b); break;
            case 3: k = eputs (b); break;
            case 4: c = sx_int (0, 255, "c"); k = eputc (c); b[0] = c; n = 1; break;
            default: c = sx_int (0, 255, "c"); k = oputc (c); b[0] = c; n = 1; break;
            }
          if (k_failed > bad) { sx_assert (k == EOF, "error"); sx_cover ("standard-error"); sx_done (); }
          sx_assert (k != EOF, "result");
          pos = size; put (b, n);
          holds (tty);
          sx_cover ("standard");
        }
      sx_done ();
    }
  int m = w < 6 ? w : 0;
  if (w < 6 && sx_choice (2)) { m = -1; for (int i = 6, k = sx_choice (3); i < 15 && m < 0; i++) if (kind[i] == kind[w] && k-- == 0) m = i; if (m < 0) sx_kill (); }
  int exists = sx_choice (2);
  if (exists)
    {
      char *d = sx_zmalloc (64);
      size = sx_choice (2) ? 3 : 1;
      sx_bytes (d, size, "old");
      for (long i = 0; i < size; i++) ref[i] = d[i];
      k_file ("F", d, size);
    }
  FILE *f = fopen ("F", mode[m]);
  if (!exists && (w == 0 || w == 1)) { sx_assert (f == 0, "open-missing"); sx_assert (ino_of ("F") < 0, "created"); sx_cover ("missing"); sx_done (); }
  sx_assert (f != 0, "open");
  int fd = (int) (long) f, ino = ino_of ("F");
  sx_assert (ino >= 0, "open");
  if (w == 2 || w == 3) size = 0;
  can_read = w == 0 || (w & 1); can_write = w != 0; append = w >= 4;
  holds (ino);
  k_wshort = sx_choice (2);
  if (!can_read && !k_wshort) k_errors = sx_choice (2);
  for (int i = 0; i < OPS; i++) { op (f, fd, ino); holds (ino); }
  sx_assert (fclose (f) == 0 && !k_fd[fd].open, "close");
  sx_done ();
  return 0;
}
