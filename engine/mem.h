// Paged copy-on-write memory objects with per-byte symbolic contents.
#pragma once
#include "expr.h"

struct Val { u64 c; Expr *e; };
static inline Val VC (u64 c) { return Val{c, nullptr}; }
static inline Val VE (Expr *e) { if (isc (e)) return Val{e->cv, nullptr}; return Val{0, e}; }
static inline Expr *EX (Val v, unsigned w) { return v.e ? v.e : mk_const (v.c, w); }

enum { PSHIFT = 10, PS = 1 << PSHIFT };
enum Fill : u8 { F_ZERO, F_SYMB, F_JUNK };
#define UNINIT ((Expr *) 1)

struct Page {
  int rc;
  Expr **s;             // null: all concrete
  u8 d[PS];
};

struct Obj {
  int rc;
  u8 fill; bool ro; bool alive; u8 kind; // kind: 0 global 1 heap 2 stack 3 func
  u64 size;
  const char *name;
  std::vector<Page *> pg;
};

static u64 g_bytes_alloc;
static Page *page_clone (Page *p)
{
  Page *q = new Page;
  q->rc = 1;
  memcpy (q->d, p->d, PS);
  if (p->s) { q->s = new Expr *[PS]; memcpy (q->s, p->s, PS * sizeof (Expr *)); }
  else q->s = nullptr;
  return q;
}
static void page_unref (Page *p)
{
  if (p && --p->rc == 0) { delete[] p->s; delete p; }
}
static Page *page_new (u8 fill)
{
  Page *p = new Page;
  p->rc = 1; p->s = nullptr;
  if (fill == F_JUNK) memset (p->d, 0xa5, PS); else memset (p->d, 0, PS);
  if (fill == F_SYMB) { p->s = new Expr *[PS]; for (int i = 0; i < PS; i++) p->s[i] = UNINIT; }
  return p;
}
static Obj *obj_new (u64 size, u8 fill, u8 kind, const char *name)
{
  Obj *o = new Obj;
  o->rc = 1; o->fill = fill; o->ro = false; o->alive = true; o->kind = kind; o->size = size; o->name = name;
  o->pg.assign ((size + PS - 1) >> PSHIFT, nullptr);
  return o;
}
static void obj_unref (Obj *o)
{
  if (o && --o->rc == 0) { for (Page *p : o->pg) page_unref (p); delete o; }
}
static Obj *obj_clone (Obj *o)
{
  Obj *n = new Obj (*o);
  n->rc = 1;
  for (Page *p : n->pg) if (p) p->rc++;
  return n;
}
static Page *page_w (Obj *o, u64 pi)
{
  Page *&p = o->pg[pi];
  if (!p) p = page_new (o->fill);
  else if (p->rc > 1) { p->rc--; p = page_clone (p); }
  return p;
}

static u64 g_uninit_reads;
static Expr *uninit_byte (const char *name)
{
  g_uninit_reads++;
  return mk_sym (std::string ("uninit:") + (name ? name : ""), 8, false);
}

// o must be exclusively owned when the read may hit UNINIT (see mem_has_uninit)
static inline bool obj_concrete_read (Obj *o, u64 off, unsigned n, u64 *out)
{
  u64 pi = off >> PSHIFT, po = off & (PS - 1);
  if (po + n <= PS)
    {
      Page *p = o->pg[pi];
      if (!p)
        {
          if (o->fill == F_ZERO) { *out = 0; return true; }
          if (o->fill == F_JUNK) { *out = 0xa5a5a5a5a5a5a5a5ULL & maskw (8 * n); return true; }
          return false;
        }
      if (p->s)
        for (unsigned i = 0; i < n; i++) if (p->s[po + i]) return false;
      u64 v = 0;
      memcpy (&v, p->d + po, n);
      *out = v;
      return true;
    }
  u64 v = 0;
  for (unsigned i = 0; i < n; i++)
    {
      u64 b;
      if (!obj_concrete_read (o, off + i, 1, &b)) return false;
      v |= b << (8 * i);
    }
  *out = v;
  return true;
}
// returns null if concrete (value in *c), UNINIT if uninitialised
static inline Expr *obj_byte (Obj *o, u64 off, u8 *c)
{
  Page *p = o->pg[off >> PSHIFT];
  if (!p)
    {
      if (o->fill == F_SYMB) return UNINIT;
      *c = o->fill == F_JUNK ? 0xa5 : 0;
      return nullptr;
    }
  u64 po = off & (PS - 1);
  if (p->s && p->s[po]) return p->s[po];
  *c = p->d[po];
  return nullptr;
}
static inline void obj_write_concrete (Obj *o, u64 off, unsigned n, u64 v)
{
  u64 po = off & (PS - 1);
  if (po + n <= PS)
    {
      Page *p = page_w (o, off >> PSHIFT);
      memcpy (p->d + po, &v, n);
      if (p->s) for (unsigned i = 0; i < n; i++) p->s[po + i] = nullptr;
      return;
    }
  for (unsigned i = 0; i < n; i++)
    obj_write_concrete (o, off + i, 1, (v >> (8 * i)) & 0xff);
}
static inline void obj_write_byte_sym (Obj *o, u64 off, Expr *e)
{
  Page *p = page_w (o, off >> PSHIFT);
  u64 po = off & (PS - 1);
  if (!p->s) { p->s = new Expr *[PS]; memset (p->s, 0, PS * sizeof (Expr *)); }
  p->s[po] = e;
}
