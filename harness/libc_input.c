/* Reading: for every history of input calls over files and pipes, kernels that return short counts or fail, and every size of the
   read buffer, the bytes come out once, in order, and the reported position is that of the reader. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <mes/lib.h>
#include "kfile.h"
#ifndef OPS
#define OPS 3
#endif
#ifndef SIZE
#define SIZE 5
#endif
extern char **environ;
extern int __stdin, __stdout, __stderr;
/* the reader: position and a character pushed back */
struct ref { int fd; char *data; long size, pos; int back, pipe, peeked; };
static struct ref R[2];
static FILE *F (struct ref *r) { return (FILE *) (long) r->fd; }
static void env (void)
{
  static char *e[2], *const v[] = { "MES_READ_BUFFER=0", "MES_READ_BUFFER=1", "MES_READ_BUFFER=3", "MES_READ_BUFFER=100", "MES_READ_BUFFER=999" };
  e[0] = v[sx_choice (5)];
  environ = e;
}
static void file (int n, char const *name, long size, int pipe)
{
  struct ref *r = R + n;
  r->data = sx_malloc (size ? size : 1); r->size = size; r->pipe = pipe; r->pos = 0; r->back = -1;
  if (size) sx_bytes (r->data, size, name);
  int i = k_file (name, r->data, size);
  r->fd = pipe ? k_opened (4 + n, i, 0, 1) : open (name, O_RDONLY);
  sx_assert (r->fd > 2, "open");
}
/* N bytes at P are the next ones */
static void next (struct ref *r, char *p, long n)
{
  if (n > 0) r->peeked = 0;
  if (n <= 0) return;
  if (r->back >= 0) { sx_assert ((p[0] & 255) == r->back, "bytes"); r->back = -1; p++; n--; }
  sx_assert (n <= r->size - r->pos, "more-than-there-is");
  for (long i = 0; i < n; i++) sx_assert (p[i] == r->data[r->pos + i], "bytes");
  r->pos += n;
}
static long left (struct ref *r) { return r->size - r->pos + (r->back >= 0); }
static void op (struct ref *r, int ops)
{
  int bad = k_failed, c; long n, k; char *b;
  switch (sx_choice (ops))
    {
    case 0: case 1:
      c = sx_choice (2) ? fgetc (F (r)) : getc (F (r));
      if (c == EOF) sx_assert (left (r) == 0 || k_failed > bad, "end-of-file");
      else { char ch = c; r->peeked = 0; sx_assert (c >= 0 && c < 256, "character"); next (r, &ch, 1); }
      sx_cover ("fgetc");
      if (c != EOF && r->back < 0 && sx_choice (2))
        { sx_assert (ungetc (c, F (r)) == c, "ungetc"); r->back = c; sx_cover ("ungetc"); }
      break;
    case 2:
      {
        long size = 1 + sx_choice (2), count = sx_choice (SIZE);
        n = size * count;
        b = sx_malloc (n);
        long all = left (r);
        k = fread (b, size, count, F (r));
        sx_assert (k >= 0 && k <= count, "fread-count");
        if (k < count)
          {
            sx_assert (all < n || k_failed > bad, "fread-short");
            if (k_failed == bad) { sx_assert (k == all / size, "fread-count"); next (r, b, all); }
            else if (size == 1) next (r, b, k);
            else { next (r, b, k * size); sx_cover ("fread-error"); sx_done (); }
          }
        else next (r, b, n);
        sx_cover ("fread");
        break;
      }
    case 3:
      n = 1 + sx_choice (SIZE);
      b = sx_malloc (n);
      {
        char *g = fgets (b, n, F (r));
        if (k_failed > bad) { sx_cover ("fgets-error"); sx_done (); }
        if (!g) { sx_assert (left (r) == 0, "fgets-end"); break; }
        sx_assert (g == b, "fgets-result");
        long all = left (r);
        for (k = 0; k < n - 1 && k < all; )
          {
            int ch = k == 0 && r->back >= 0 ? r->back : r->data[r->pos + k - (r->back >= 0)] & 255;
            k++;
            if (ch == '\n') break;
          }
        sx_assert (b[k] == 0, "fgets-length");
        sx_assert (k > 0 || n == 1, "fgets-end");
        next (r, b, k);
        sx_cover ("fgets");
        break;
      }
    case 4:
      if (r->back >= 0 || r->peeked) break;   /* descriptor calls know nothing of the stream's pushed back character */
      n = sx_choice (SIZE);
      b = sx_malloc (n);
      k = read (r->fd, b, n);
      sx_assert (k >= -1 && k <= n, "read-count");
      if (k == -1) sx_assert (k_failed > bad && errno == 5, "read-error");
      if (k == 0) sx_assert (n == 0 || left (r) == 0, "read-end");
      next (r, b, k);
      sx_cover ("read");
      break;
    case 5:
      c = feof (F (r));
      if (k_failed == bad) sx_assert ((c != 0) == (left (r) == 0), "feof");
      r->peeked = 1;
      sx_cover ("feof");
      break;
    case 6:
      k = ftell (F (r));
      if (r->pipe) sx_assert (k == -1, "ftell-pipe");
      else sx_assert (k == r->pos - (r->back >= 0), "ftell");
      sx_cover ("ftell");
      break;
    case 7:
      {
        int wh = sx_choice (3), st = r->back < 0 && !r->peeked && sx_choice (2);
        long off = sx_int (-2, 3, "off"), to;
        if (wh == 2) off = -off;
        if (wh == 0) off = sx_select (off == 3, 2 * SIZE, off);
        to = wh == 0 ? off : wh == 1 ? r->pos - (r->back >= 0) + off : r->size + off;
        to = sx_concrete (to);
        k = st ? lseek (r->fd, off, wh) : fseek (F (r), off, wh);
        if (r->pipe || to < 0) { sx_assert (k == -1, "seek-refused"); sx_cover ("seek-refused"); break; }
        sx_assert (k == (st ? to : 0), "seek");
        if (to > r->size) { c = fgetc (F (r)); sx_assert (c == EOF || k_failed > bad, "beyond-the-end"); sx_done (); }
        r->pos = to; r->back = -1; r->peeked = 0;
        sx_cover ("seek");
        break;
      }
    }
}
int sx_main (void)
{
  long w = sx_case (6);
  __stdin = 0; __stdout = 1; __stderr = 2;
  for (int i = 0; i < 3; i++) k_opened (i, k_file ("tty", 0, 0), 0, 1);
  env ();
  if (w < 3)
    {
      file (0, "A", w == 0 ? sx_choice (2) : SIZE, w == 2 || (w == 0 && sx_choice (2)));
      k_short = 1;
      for (int i = 0; i < OPS; i++) op (R, 8);
    }
  else if (w == 3)
    { /* a read may fail */
      file (0, "A", SIZE, sx_choice (2));
      k_errors = 1;
      for (int i = 0; i < OPS; i++) op (R, 6);
    }
  else if (w == 4)
    { /* two files do not disturb each other */
      file (0, "A", SIZE - 1, 0); file (1, "B", 3, sx_choice (2));
      for (int i = 0; i < OPS; i++) op (R + sx_choice (2), 6);
    }
  else
    { /* a descriptor that is closed and opened again, or given another file, reads the new one */
      file (0, "A", SIZE - 1, sx_choice (2)); file (1, "B", 3, 0);
      op (R, 6);
      int fd = R[0].fd;
      if (sx_choice (2))
        {
          sx_assert (fclose (F (R)) == 0, "close");
          sx_assert (close (R[1].fd) == 0, "close");
          k_fd[3].open = fd != 3;
          int n = open ("B", O_RDONLY);
          sx_assert (n == fd, "reopen");
          R[1].fd = fd; R[1].pos = 0; R[1].back = -1; R[1].peeked = 0;
          sx_cover ("reopen");
        }
      else
        {
          sx_assert (dup2 (R[1].fd, fd) == fd, "dup2");
          R[1].fd = fd; R[1].pos = 0; R[1].back = -1; R[1].peeked = 0;
          sx_cover ("dup2");
        }
      for (int i = 1; i < OPS; i++) op (R + 1, 6);
    }
  sx_done ();
  return 0;
}
