/* Character classification for EOF and every unsigned char value (C locale), plus values outside: no trap, no table overrun. */
#include <ctype.h>
#include "sx.h"
int isnumber (int c, int base);
static int lo (int c) { return c >= 'a' && c <= 'z'; }
static int up (int c) { return c >= 'A' && c <= 'Z'; }
static int dg (int c) { return c >= '0' && c <= '9'; }
static int sp (int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int pr (int c) { return c >= 32 && c <= 126; }
static int xd (int c) { return dg (c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
#define T(f, e) sx_assert (!!(f) == !!(e), #f)
int sx_main (void)
{
  int c = sx_u64 ("c");
  T (isalpha (c), lo (c) || up (c)); T (isdigit (c), dg (c)); T (isalnum (c), lo (c) || up (c) || dg (c));
  T (islower (c), lo (c)); T (isupper (c), up (c)); T (isspace (c), sp (c)); T (isprint (c), pr (c));
  T (isgraph (c), pr (c) && c != 32); T (ispunct (c), pr (c) && c != 32 && !lo (c) && !up (c) && !dg (c));
  T (iscntrl (c), (c >= 0 && c < 32) || c == 127); T (isxdigit (c), xd (c)); T (isascii (c), c >= 0 && c <= 127);
  sx_assert (tolower (c) == (up (c) ? c + 32 : c), "tolower");
  sx_assert (toupper (c) == (lo (c) ? c - 32 : c), "toupper");
  int b = sx_concrete (sx_int (2, 36, "base"));
  int v = dg (c) ? c - '0' : lo (c) ? c - 'a' + 10 : up (c) ? c - 'A' + 10 : 99;
  sx_assert (!!isnumber (c, b) == (v < b), "isnumber");
  sx_cover ("ctype");
  sx_done ();
  return 0;
}
