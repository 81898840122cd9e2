/* The machine the disassembled code runs on: registers, flags, a flat memory of data and stack. */
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64;
typedef signed char i8; typedef short i16; typedef int i32; typedef long i64;
#include "sx.h"
static u64 rax, rcx, rdx, rbx, rsp, rbp, rsi, rdi, r8, r9, r10, r11, r12, r13, r14, r15, ret_at;
static u8 zf, sf, cf, of;
static u8 MEM[MEMSIZE];
static char const *now;         /* the program being run */
static void wrong (char const *what) { sx_print (what, 0); sx_fail (now); sx_done (); }
static u8 *at (u64 a, int n) { if (a < LO || a > LO + MEMSIZE - n) wrong ("access outside data and stack"); return MEM + (a - LO); }
#define LD8(a) (*at (a, 1))
#define LD16(a) (*(u16 *) at (a, 2))
#define LD32(a) (*(u32 *) at (a, 4))
#define LD64(a) (*(u64 *) at (a, 8))
#define ST8(a, v) (*at (a, 1) = (u8) (v))
#define ST16(a, v) (*(u16 *) at (a, 2) = (u16) (v))
#define ST32(a, v) (*(u32 *) at (a, 4) = (u32) (v))
#define ST64(a, v) (*(u64 *) at (a, 8) = (u64) (v))
static u64 undef (void) { return 0x5a5a5a5a5a5a5a5bULL; }
/* an instruction this machine does not know: nothing is claimed about the program */
static void unsupported (char const *s) { sx_print (s, 0); sx_cover ("unsupported"); sx_done (); }
static void bad_call (void) { wrong ("call of something that is no function"); }
static void after (u64 t) { if (ret_at != t) wrong ("returns to the wrong place"); }
static void idiv64 (u64 y)
{
  if (y == 0) wrong ("division by zero");
  if (rdx != ((i64) rax < 0 ? ~0ULL : 0)) wrong ("dividend exceeds a register");
  i64 a = rax, b = y;
  if (b == -1 && a == (i64) (1ULL << 63)) wrong ("quotient overflows");
  rax = a / b; rdx = a % b;
}
static void div64 (u64 y)
{
  if (y == 0) wrong ("division by zero");
  if (rdx) wrong ("dividend exceeds a register");
  u64 a = rax;
  rax = a / y; rdx = a % y;
}
static void idiv32 (u32 y)
{
  if (y == 0) wrong ("division by zero");
  if ((u32) rdx != ((i32) rax < 0 ? ~0U : 0)) wrong ("dividend exceeds a register");
  i32 a = rax, b = y;
  if (b == -1 && a == (i32) (1U << 31)) wrong ("quotient overflows");
  rax = (u32) (a / b); rdx = (u32) (a % b);
}
static void div32 (u32 y)
{
  if (y == 0) wrong ("division by zero");
  if ((u32) rdx) wrong ("dividend exceeds a register");
  u32 a = rax;
  rax = a / y; rdx = a % y;
}
#define TOP (LO + MEMSIZE - 256)
/* call F with N arguments in the compiler's convention: all on the stack, each a machine word */
#ifdef SX_NATIVE
long sx_native_call (int word, u64 code, u8 const *c, long cn, u64 data, u8 const *d, long dn, long total, u64 fn, long const *arg, int n);
#endif
static u64 machine_call (void (*f) (void), u64 addr, u64 const *arg, int n)
{
#ifdef SX_NATIVE
  return sx_native_call (WORD, CODE, code, sizeof code, LO, image, sizeof image, MEMSIZE, addr, (long *) arg, n);
#endif
  rsp = TOP; rbp = LO + MEMSIZE - 64;
  rax = rcx = rdx = rbx = rsi = rdi = r8 = r9 = r10 = r11 = r12 = r13 = r14 = r15 = undef ();
  while (n-- > 0)
    {
      rsp -= WORD;
      if (WORD == 8) ST64 (rsp, arg[n]); else ST32 (rsp, arg[n]);
    }
  u64 sp = rsp;
  rsp -= WORD;
  if (WORD == 8) ST64 (rsp, 0x1234); else ST32 (rsp, 0x1234);
  f ();
  after (0x1234);
  if (rsp != sp || rbp != LO + MEMSIZE - 64) wrong ("stack or frame pointer not restored");
  return rax;
}
