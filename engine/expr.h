// Bit-vector expressions: hash-consed, simplifying constructors, evaluation
// under a model, and translation to Z3.  Widths are 1..64.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <chrono>
#include <z3.h>

typedef uint64_t u64;
typedef int64_t s64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 { O_CONST, O_SYM, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_ITE };

struct SymSet { std::vector<u32> v; u32 id; };

struct Expr {
  Op op; u8 w; u8 lo; bool mark; bool rng;
  u32 id;
  Expr *a, *b, *c;
  u64 cv;               // constant value or symbol number
  SymSet *syms;
  Z3_ast z;
  u64 evv; u64 evstamp; // evaluation cache
  u64 rlo, rhi;         // unsigned range
};

static inline u64 maskw (unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline s64 sextw (u64 v, unsigned w) { return w >= 64 ? (s64) v : ((s64) (v << (64 - w))) >> (64 - w); }

static u64 foldop (Op op, unsigned w, u64 a, u64 b, unsigned aw)
{
  u64 m = maskw (w);
  switch (op)
    {
    case O_ADD: return (a + b) & m;
    case O_SUB: return (a - b) & m;
    case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? (a / b) & m : m;
    case O_UREM: return b ? (a % b) & m : a;
    case O_SDIV:
      {
        s64 x = sextw (a, w), y = sextw (b, w);
        if (y == 0) return x < 0 ? 1 : m;
        if (y == -1) return (0 - (u64) x) & m;
        return (u64) (x / y) & m;
      }
    case O_SREM:
      {
        s64 x = sextw (a, w), y = sextw (b, w);
        if (y == 0) return a;
        if (y == -1) return 0;
        return (u64) (x % y) & m;
      }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & m;
    case O_LSHR: return b >= w ? 0 : (a >> b);
    case O_ASHR: { s64 x = sextw (a, w); return (u64) (x >> (b >= w ? w - 1 : b)) & m; }
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sextw (a, aw) < sextw (b, aw);
    case O_SLE: return sextw (a, aw) <= sextw (b, aw);
    default: abort ();
    }
}

struct ExprKey { u64 h; };
struct ExprTable {
  std::vector<Expr *> tab; size_t n = 0;
  ExprTable () : tab (1 << 16, nullptr) {}
  static u64 hash (Op op, u8 w, u8 lo, Expr *a, Expr *b, Expr *c, u64 cv)
  {
    u64 h = op * 0x9E3779B97F4A7C15ULL + w * 31 + lo * 131;
    h = (h ^ (a ? a->id + 1 : 0)) * 0xff51afd7ed558ccdULL; h ^= h >> 29;
    h = (h ^ (b ? b->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 31;
    h = (h ^ (c ? c->id + 1 : 0)) * 0x9E3779B97F4A7C15ULL; h ^= h >> 30;
    h = (h ^ cv) * 0xff51afd7ed558ccdULL; h ^= h >> 32;
    return h;
  }
};
static ExprTable ET;
static std::unordered_map<std::string, SymSet *> g_symsets_dummy;
static std::vector<SymSet *> g_symsets;
struct VecHash { size_t operator() (std::vector<u32> const &v) const { size_t h = 1469598103934665603ULL; for (u32 x : v) h = (h ^ x) * 1099511628211ULL; return h; } };
static std::unordered_map<std::vector<u32>, SymSet *, VecHash> g_symset_tab;
static SymSet *g_emptyset;
static SymSet *symset_intern (std::vector<u32> const &v)
{
  auto it = g_symset_tab.find (v);
  if (it != g_symset_tab.end ()) return it->second;
  SymSet *s = new SymSet; s->v = v; s->id = g_symsets.size (); g_symsets.push_back (s);
  g_symset_tab[v] = s;
  return s;
}
static std::unordered_map<u64, SymSet *> g_symset_union;
static SymSet *symset_union (SymSet *a, SymSet *b)
{
  if (a == b || b->v.empty ()) return a;
  if (a->v.empty ()) return b;
  if (a->id > b->id) std::swap (a, b);
  u64 k = ((u64) a->id << 32) | b->id;
  auto it = g_symset_union.find (k);
  if (it != g_symset_union.end ()) return it->second;
  std::vector<u32> r;
  std::set_union (a->v.begin (), a->v.end (), b->v.begin (), b->v.end (), std::back_inserter (r));
  return g_symset_union[k] = symset_intern (r);
}

struct SymInfo { std::string name; u8 w; Z3_ast z; bool input; };
static std::vector<SymInfo> g_syms;
static std::vector<Expr *> g_symexpr;

static Expr *mk_raw (Op op, u8 w, u8 lo, Expr *a, Expr *b, Expr *c, u64 cv)
{
  u64 h = ExprTable::hash (op, w, lo, a, b, c, cv);
  size_t mask = ET.tab.size () - 1;
  size_t i = h & mask;
  while (Expr *e = ET.tab[i])
    {
      if (e->op == op && e->w == w && e->lo == lo && e->a == a && e->b == b && e->c == c && e->cv == cv)
        return e;
      i = (i + 1) & mask;
    }
  Expr *e = new Expr;
  e->op = op; e->w = w; e->lo = lo; e->a = a; e->b = b; e->c = c; e->cv = cv; e->id = ET.n; e->z = nullptr; e->evstamp = 0; e->mark = false; e->rng = false;
  if (!g_emptyset) g_emptyset = symset_intern ({});
  if (op == O_SYM) e->syms = symset_intern ({(u32) cv});
  else
    {
      SymSet *s = g_emptyset;
      if (a) s = symset_union (s, a->syms);
      if (b) s = symset_union (s, b->syms);
      if (c) s = symset_union (s, c->syms);
      e->syms = s;
    }
  ET.tab[i] = e;
  ET.n++;
  if (ET.n * 2 > ET.tab.size ())
    {
      std::vector<Expr *> old;
      old.swap (ET.tab);
      ET.tab.assign (old.size () * 2, nullptr);
      size_t m2 = ET.tab.size () - 1;
      for (Expr *x : old) if (x)
        {
          size_t j = ExprTable::hash (x->op, x->w, x->lo, x->a, x->b, x->c, x->cv) & m2;
          while (ET.tab[j]) j = (j + 1) & m2;
          ET.tab[j] = x;
        }
    }
  return e;
}

static inline Expr *mk_const (u64 v, unsigned w) { return mk_raw (O_CONST, w, 0, nullptr, nullptr, nullptr, v & maskw (w)); }
static inline bool isc_ (Expr *e) { return e->op == O_CONST; }
static inline bool isc (Expr *e) { return e->op == O_CONST; }
static inline bool isc (Expr *e, u64 v) { return e->op == O_CONST && e->cv == v; }

static Expr *mk_zext (Expr *a, unsigned w);
static Expr *mk_extract (Expr *a, unsigned lo, unsigned w);
static Expr *mk_concat (Expr *hi, Expr *lo);
static Expr *mk_ite (Expr *c, Expr *t, Expr *f);
static Expr *mk_bin (Op op, Expr *a, Expr *b);
static Expr *mk_not (Expr *a);

static Expr *mk_sym (std::string const &name, unsigned w, bool input)
{
  u32 n = g_syms.size ();
  g_syms.push_back ({name, (u8) w, nullptr, input});
  Expr *e = mk_raw (O_SYM, w, 0, nullptr, nullptr, nullptr, n);
  g_symexpr.push_back (e);
  return e;
}

// ---- unsigned ranges (memoised); symbols may carry declared bounds
static std::vector<u64> g_symlo, g_symhi;
static inline unsigned nbits (u64 v) { return v ? 64 - __builtin_clzll (v) : 0; }
static void urange (Expr *e, u64 &lo, u64 &hi)
{
  if (e->rng) { lo = e->rlo; hi = e->rhi; return; }
  u64 m = maskw (e->w), al = 0, ah = 0, bl = 0, bh = 0;
  lo = 0; hi = m;
  switch (e->op)
    {
    case O_CONST: lo = hi = e->cv; break;
    case O_SYM: if (e->cv < g_symhi.size ()) { lo = g_symlo[e->cv]; hi = g_symhi[e->cv]; } break;
    case O_ZEXT: urange (e->a, lo, hi); break;
    case O_SEXT: urange (e->a, al, ah); if (!(ah >> (e->a->w - 1))) { lo = al; hi = ah; } break;
    case O_CONCAT: urange (e->a, al, ah); urange (e->b, bl, bh); lo = (al << e->b->w) + bl; hi = (ah << e->b->w) + bh; break;
    case O_EXTRACT: urange (e->a, al, ah); if ((ah >> e->lo) <= m) { lo = al >> e->lo; hi = ah >> e->lo; } break;
    case O_ITE: urange (e->b, al, ah); urange (e->c, bl, bh); lo = std::min (al, bl); hi = std::max (ah, bh); break;
    case O_AND: urange (e->a, al, ah); urange (e->b, bl, bh); hi = std::min (ah, bh); break;
    case O_OR: urange (e->a, al, ah); urange (e->b, bl, bh); lo = std::max (al, bl); hi = maskw (nbits (ah | bh)); if (nbits (ah | bh) == 0) hi = 0; break;
    case O_XOR: urange (e->a, al, ah); urange (e->b, bl, bh); hi = nbits (ah | bh) ? maskw (nbits (ah | bh)) : 0; break;
    case O_ADD: urange (e->a, al, ah); urange (e->b, bl, bh); { unsigned __int128 t = (unsigned __int128) ah + bh; if (t <= m) { hi = t; lo = al + bl; } else if ((unsigned __int128) al + bl > m) { lo = (al + bl) & m; hi = (ah + bh) & m; } } break;
    case O_SUB: urange (e->a, al, ah); urange (e->b, bl, bh); if (al >= bh) { lo = al - bh; hi = ah - bl; } else if (ah < bl) { lo = (al - bh) & m; hi = (ah - bl) & m; } break;
    case O_MUL: urange (e->a, al, ah); urange (e->b, bl, bh); { unsigned __int128 t = (unsigned __int128) ah * bh; if (t <= m) { hi = t; lo = al * bl; } } break;
    case O_UDIV: urange (e->a, al, ah); urange (e->b, bl, bh); if (bl) { lo = al / bh; hi = ah / bl; } break;
    case O_UREM: urange (e->a, al, ah); urange (e->b, bl, bh); if (bl) { hi = std::min (ah, bh - 1); } break;
    case O_LSHR: urange (e->a, al, ah); hi = ah; if (isc_ (e->b)) { lo = e->b->cv >= e->w ? 0 : al >> e->b->cv; hi = e->b->cv >= e->w ? 0 : ah >> e->b->cv; } break;
    default: break;
    }
  e->rng = true; e->rlo = lo; e->rhi = hi;
}
static inline u64 umaxv (Expr *e) { u64 l, h; urange (e, l, h); return h; }
static inline u64 uminv (Expr *e) { u64 l, h; urange (e, l, h); return l; }
static inline unsigned highzeros (Expr *e) { return e->w - nbits (umaxv (e)); }
static void sym_bounds (Expr *e, u64 lo, u64 hi)
{
  while (g_symhi.size () <= e->cv) { g_symlo.push_back (0); g_symhi.push_back (maskw (g_syms[g_symhi.size ()].w)); }
  g_symlo[e->cv] = lo; g_symhi[e->cv] = hi; e->rng = false;
}
// a = d*q + r with 0 <= r < d and no wrap-around: finds q and r
static bool split_mul (Expr *a, u64 d, Expr *&q, Expr *&r)
{
  unsigned w = a->w;
  if (a->op == O_MUL && isc_ (a->b) && a->b->cv % d == 0)
    {
      if ((unsigned __int128) umaxv (a->a) * a->b->cv > maskw (w)) return false;
      q = mk_bin (O_MUL, a->a, mk_const (a->b->cv / d, w)); r = mk_const (0, w); return true;
    }
  if (a->op == O_ADD)
    for (int k = 0; k < 2; k++)
      {
        Expr *x = k ? a->b : a->a, *y = k ? a->a : a->b, *qx, *rx;
        if (!split_mul (x, d, qx, rx)) continue;
        if ((unsigned __int128) umaxv (x) + umaxv (y) > maskw (w)) continue;
        Expr *s = mk_bin (O_ADD, rx, y);
        if (umaxv (rx) + (unsigned __int128) umaxv (y) < d) { q = qx; r = s; return true; }
        if (isc_ (y)) { u64 add = y->cv / d; if (umaxv (rx) + (unsigned __int128) (y->cv % d) < d) { q = mk_bin (O_ADD, qx, mk_const (add, w)); r = mk_bin (O_ADD, rx, mk_const (y->cv % d, w)); return true; } }
      }
  return false;
}

static Expr *mk_zext (Expr *a, unsigned w)
{
  if (a->w == w) return a;
  if (isc (a)) return mk_const (a->cv, w);
  if (a->op == O_ZEXT) return mk_zext (a->a, w);
  if (a->op == O_EXTRACT && a->lo == 0 && umaxv (a->a) <= maskw (a->w))
    return w >= a->a->w ? mk_zext (a->a, w) : mk_extract (a->a, 0, w);
  if (a->op == O_ADD && umaxv (a->a) + (unsigned __int128) umaxv (a->b) <= maskw (a->w))
    return mk_bin (O_ADD, mk_zext (a->a, w), mk_zext (a->b, w));
  if (a->op == O_MUL && isc (a->b) && umaxv (a->a) * (unsigned __int128) a->b->cv <= maskw (a->w))
    return mk_bin (O_MUL, mk_zext (a->a, w), mk_const (a->b->cv, w));
  return mk_raw (O_ZEXT, w, 0, a, nullptr, nullptr, 0);
}
static Expr *mk_sext (Expr *a, unsigned w)
{
  if (a->w == w) return a;
  if (isc (a)) return mk_const (sextw (a->cv, a->w), w);
  if (a->op == O_SEXT) return mk_sext (a->a, w);
  if (a->op == O_ZEXT || highzeros (a) > 0) return mk_zext (a, w);
  u64 sb = 1ULL << (a->w - 1);
  if (a->w > 1 && a->op == O_SUB && isc (a->a, 0) && umaxv (a->b) <= sb) return mk_bin (O_SUB, mk_const (0, w), mk_zext (a->b, w));
  if (a->w > 1 && a->op == O_ADD && isc (a->b) && (a->b->cv & sb) && umaxv (a->a) < sb) return mk_bin (O_ADD, mk_zext (a->a, w), mk_const (sextw (a->b->cv, a->w), w));
  return mk_raw (O_SEXT, w, 0, a, nullptr, nullptr, 0);
}
static Expr *mk_extract (Expr *a, unsigned lo, unsigned w)
{
  if (lo == 0 && w == a->w) return a;
  switch (a->op)
    {
    case O_CONST: return mk_const (a->cv >> lo, w);
    case O_EXTRACT: return mk_extract (a->a, a->lo + lo, w);
    case O_ZEXT:
      if (lo >= a->a->w) return mk_const (0, w);
      if (lo + w <= a->a->w) return mk_extract (a->a, lo, w);
      return mk_zext (mk_extract (a->a, lo, a->a->w - lo), w);
    case O_SEXT:
      if (lo + w <= a->a->w) return mk_extract (a->a, lo, w);
      if (lo == 0) return mk_sext (a->a, w);
      break;
    case O_CONCAT:
      if (lo + w <= a->b->w) return mk_extract (a->b, lo, w);
      if (lo >= a->b->w) return mk_extract (a->a, lo - a->b->w, w);
      return mk_concat (mk_extract (a->a, 0, lo + w - a->b->w), mk_extract (a->b, lo, a->b->w - lo));
    case O_AND: case O_OR: case O_XOR:
      return mk_bin (a->op, mk_extract (a->a, lo, w), mk_extract (a->b, lo, w));
    case O_ADD: case O_SUB: case O_MUL:
      if (lo == 0) return mk_bin (a->op, mk_extract (a->a, 0, w), mk_extract (a->b, 0, w));
      break;
    case O_ITE:
      if (isc (a->b) || isc (a->c))
        return mk_ite (a->a, mk_extract (a->b, lo, w), mk_extract (a->c, lo, w));
      break;
    case O_SHL:
      if (lo == 0 && isc (a->b) && a->b->cv < w) return mk_bin (O_SHL, mk_extract (a->a, 0, w), mk_const (a->b->cv, w));
      break;
    default: break;
    }
  if (lo > 0 && highzeros (a) >= a->w - lo) return mk_const (0, w);
  return mk_raw (O_EXTRACT, w, lo, a, nullptr, nullptr, 0);
}
static Expr *mk_concat (Expr *hi, Expr *lo)
{
  if (isc (hi) && isc (lo)) return mk_const ((hi->cv << lo->w) | lo->cv, hi->w + lo->w);
  if (isc (hi, 0)) return mk_zext (lo, hi->w + lo->w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w)
    return mk_extract (hi->a, lo->lo, hi->w + lo->w);
  // extract at low end of x itself: concat (extract (x, w, n), x) where lo is not an extract but hi extracts from zext/sext of lo
  if (lo->op == O_CONCAT)
    {
      // concat (h, concat (m, l)): try merging h and m
      Expr *m = mk_concat (hi, lo->a);
      if (m->op != O_CONCAT) return mk_concat (m, lo->b);
    }
  if (hi->op == O_ZEXT) // concat (zext h, lo) = zext (concat (h, lo))
    return mk_zext (mk_concat (hi->a, lo), hi->w + lo->w);
  if (hi->op == O_EXTRACT && hi->lo == lo->w && (hi->a->op == O_SEXT || hi->a->op == O_ZEXT) && hi->a->a == lo)
    return mk_extract (hi->a, 0, hi->w + lo->w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a->op == O_SEXT && hi->a->a == lo->a && hi->lo == lo->lo + lo->w)
    return mk_extract (hi->a, lo->lo, hi->w + lo->w);
  if (lo->op == O_ZEXT && hi->op == O_EXTRACT) { /* keep */ }
  // the low part of an arithmetic expression, which mk_extract pushes inwards
  if (hi->op == O_EXTRACT && hi->lo == lo->w && (lo->op == O_ADD || lo->op == O_SUB || lo->op == O_MUL || lo->op == O_AND || lo->op == O_OR || lo->op == O_XOR || lo->op == O_SEXT || lo->op == O_ITE || lo->op == O_CONST || lo->op == O_SHL)
      && mk_extract (hi->a, 0, lo->w) == lo)
    return mk_extract (hi->a, 0, hi->w + lo->w);
  return mk_raw (O_CONCAT, hi->w + lo->w, 0, hi, lo, nullptr, 0);
}
static Expr *mk_not (Expr *a)
{
  if (isc (a)) return mk_const (!a->cv, 1);
  if (a->op == O_XOR && isc (a->b, 1)) return a->a;
  switch (a->op)
    {
    case O_ULT: return mk_bin (O_ULE, a->b, a->a);
    case O_ULE: return mk_bin (O_ULT, a->b, a->a);
    case O_SLT: return mk_bin (O_SLE, a->b, a->a);
    case O_SLE: return mk_bin (O_SLT, a->b, a->a);
    default: break;
    }
  return mk_raw (O_XOR, 1, 0, a, mk_const (1, 1), nullptr, 0);
}
static Expr *mk_ite (Expr *c, Expr *t, Expr *f)
{
  if (isc (c)) return c->cv ? t : f;
  if (t == f) return t;
  if (c->op == O_XOR && isc (c->b, 1)) { c = c->a; std::swap (t, f); }
  if (t->w == 1)
    {
      if (isc (t, 1) && isc (f, 0)) return c;
      if (isc (t, 0) && isc (f, 1)) return mk_not (c);
      if (isc (t, 1)) return mk_bin (O_OR, c, f);
      if (isc (f, 0)) return mk_bin (O_AND, c, t);
      if (isc (t, 0)) return mk_bin (O_AND, mk_not (c), f);
      if (isc (f, 1)) return mk_bin (O_OR, mk_not (c), t);
    }
  if (t->op == O_ITE && t->a == c) t = t->b;
  if (f->op == O_ITE && f->a == c) f = f->c;
  if (isc (t, 1) && isc (f, 0)) return mk_zext (c, t->w);
  return mk_raw (O_ITE, t->w, 0, c, t, f, 0);
}
static bool is_lowmask (u64 v, unsigned *n) { if (v == 0 || (v & (v + 1))) return false; *n = __builtin_popcountll (v); return true; }

// signed ranges, for short expressions
static void srange (Expr *e, __int128 &lo, __int128 &hi, int depth = 10)
{
  unsigned w = e->w;
  __int128 mn = -((__int128) 1 << (w - 1)), mx = ((__int128) 1 << (w - 1)) - 1, al, ah, bl, bh;
  lo = mn; hi = mx;
  if (isc_ (e)) { lo = hi = sextw (e->cv, w); return; }
  if (depth == 0) return;
  switch (e->op)
    {
    case O_SEXT: srange (e->a, lo, hi, depth - 1); return;
    case O_ZEXT: { u64 l, h; urange (e->a, l, h); lo = l; hi = h; return; }
    case O_EXTRACT: if (e->lo == 0) { srange (e->a, al, ah, depth - 1); if (al >= mn && ah <= mx) { lo = al; hi = ah; } } return;
    case O_ITE: srange (e->b, al, ah, depth - 1); srange (e->c, bl, bh, depth - 1); lo = std::min (al, bl); hi = std::max (ah, bh); return;
    case O_AND: srange (e->a, al, ah, depth - 1); srange (e->b, bl, bh, depth - 1);
      if (al >= 0 && bl >= 0) { lo = 0; hi = std::min (ah, bh); } else if (al >= 0) { lo = 0; hi = ah; } else if (bl >= 0) { lo = 0; hi = bh; }
      else { __int128 l = std::min (al, bl), p = -1; while (p > l) p *= 2; lo = p; hi = std::max (ah, bh); }
      return;
    case O_OR: case O_XOR:
      { // both fit N bits signed, so does the result
        srange (e->a, al, ah, depth - 1); srange (e->b, bl, bh, depth - 1);
        __int128 l = std::min (al, bl), h = std::max (ah, bh), p = 1;
        while (l < -p || h > p - 1) p *= 2;
        lo = al >= 0 && bl >= 0 ? 0 : -p; hi = p - 1;
        return;
      }
    case O_ADD: case O_SUB: case O_MUL:
      {
        srange (e->a, al, ah, depth - 1); srange (e->b, bl, bh, depth - 1);
        __int128 l, h;
        if (e->op == O_ADD) { l = al + bl; h = ah + bh; }
        else if (e->op == O_SUB) { l = al - bh; h = ah - bl; }
        else { __int128 p[4] = { al * bl, al * bh, ah * bl, ah * bh }; l = h = p[0]; for (int i = 1; i < 4; i++) { l = std::min (l, p[i]); h = std::max (h, p[i]); } if (w == 64 && (al <= mn || bl <= mn)) return; }
        if (l >= mn && h <= mx) { lo = l; hi = h; }
        return;
      }
    case O_SHL:
      if (isc_ (e->b) && e->b->cv < w && e->b->cv < 60)
        {
          srange (e->a, al, ah, depth - 1);
          if (w > 32 && (al <= mn / 2 || ah >= mx / 2)) return;
          al <<= e->b->cv; ah <<= e->b->cv;
          if (al >= mn && ah <= mx) { lo = al; hi = ah; }
        }
      return;
    default: { u64 l, h; urange (e, l, h); if ((__int128) h <= mx) { lo = l; hi = h; } return; }
    }
}
// A op B (0 +, 1 -, 2 *) cannot overflow as signed numbers
static bool no_overflow (int op, Expr *a, Expr *b)
{
  unsigned w = a->w;
  __int128 mn = -((__int128) 1 << (w - 1)), mx = ((__int128) 1 << (w - 1)) - 1, al, ah, bl, bh, l, h;
  srange (a, al, ah); srange (b, bl, bh);
  if (op == 0) { l = al + bl; h = ah + bh; }
  else if (op == 1) { l = al - bh; h = ah - bl; }
  else { __int128 p[4] = { al * bl, al * bh, ah * bl, ah * bh }; l = h = p[0]; for (int i = 1; i < 4; i++) { l = std::min (l, p[i]); h = std::max (h, p[i]); } }
  return l >= mn && h <= mx;
}

// the least N known such that E is its low N bits sign extended
static unsigned sext_from (Expr *e)
{
  unsigned w = e->w;
  if (isc (e)) { unsigned n = 1; while (n < w && sextw (e->cv & maskw (n), n) != sextw (e->cv, w)) n++; return n; }
  if (e->op == O_SEXT) return e->a->w;
  if (e->op == O_ZEXT) return e->a->w + 1 < w ? e->a->w + 1 : w;
  return w;
}

static Expr *mk_bin (Op op, Expr *a, Expr *b)
{
  unsigned aw = a->w;
  bool cmp = op >= O_EQ && op <= O_SLE;
  unsigned w = cmp ? 1 : aw;
  if (isc (a) && isc (b)) return mk_const (foldop (op, w, a->cv, b->cv, aw), w);
  bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ;
  if (comm && (isc (a) || (!isc (b) && a->id > b->id))) std::swap (a, b);
  u64 m = maskw (aw);
  if (aw == 1 && (op == O_XOR) && isc (b, 1)) return mk_not (a);
  switch (op)
    {
    case O_ADD:
      if (isc (b, 0)) return a;
      if (isc (b))
        {
          if (a->op == O_ADD && isc (a->b)) return mk_bin (O_ADD, a->a, mk_const (a->b->cv + b->cv, w));
          if (a->op == O_ITE && isc (a->b) && isc (a->c)) return mk_ite (a->a, mk_bin (op, a->b, b), mk_bin (op, a->c, b));
        }
      else
        {
          if (a->op == O_ADD && isc (a->b)) return mk_bin (O_ADD, mk_bin (O_ADD, a->a, b), a->b);
          if (b->op == O_ADD && isc (b->b)) return mk_bin (O_ADD, mk_bin (O_ADD, a, b->a), b->b);
          if (a->op == O_SUB && a->b == b) return a->a;
          if (b->op == O_SUB && b->b == a) return b->a;
        }
      break;
    case O_SUB:
      if (isc (b)) return mk_bin (O_ADD, a, mk_const (0 - b->cv, w));
      if (a == b) return mk_const (0, w);
      if (isc (a, 0) && b->op == O_SUB) return mk_bin (O_SUB, b->b, b->a);
      if (a->op == O_ADD && a->b == b) return a->a;
      if (a->op == O_ADD && a->a == b) return a->b;
      if (a->op == O_ADD && isc (a->b)) return mk_bin (O_ADD, mk_bin (O_SUB, a->a, b), a->b);
      if (b->op == O_ADD && isc (b->b)) return mk_bin (O_ADD, mk_bin (O_SUB, a, b->a), mk_const (0 - b->b->cv, w));
      break;
    case O_MUL:
      if (isc (b, 0)) return b;
      if (isc (b, 1)) return a;
      if (isc (b) && (b->cv & (b->cv - 1)) == 0) return mk_bin (O_SHL, a, mk_const (__builtin_ctzll (b->cv), w));
      if (isc (b) && a->op == O_MUL && isc (a->b)) return mk_bin (O_MUL, a->a, mk_const (a->b->cv * b->cv, w));
      break;
    case O_UDIV:
      if (isc (b, 1)) return a;
      if (isc (b) && b->cv)
        {
          if (umaxv (a) < b->cv) return mk_const (0, w);
          Expr *q, *r;
          if (split_mul (a, b->cv, q, r)) return q;
        }
      if (isc (b) && b->cv && (b->cv & (b->cv - 1)) == 0) return mk_bin (O_LSHR, a, mk_const (__builtin_ctzll (b->cv), w));
      if (isc (b) && b->cv)
        { // narrow
          unsigned hz = highzeros (a), bz = highzeros (b); unsigned n = w - std::min (hz, bz);
          if (n < w && n > 0) return mk_zext (mk_bin (O_UDIV, mk_extract (a, 0, n), mk_extract (b, 0, n)), w);
        }
      break;
    case O_UREM:
      if (isc (b, 1)) return mk_const (0, w);
      if (isc (b) && b->cv)
        {
          if (umaxv (a) < b->cv) return a;
          Expr *q, *r;
          if (split_mul (a, b->cv, q, r)) return r;
        }
      if (isc (b) && b->cv && (b->cv & (b->cv - 1)) == 0) return mk_bin (O_AND, a, mk_const (b->cv - 1, w));
      if (isc (b) && b->cv)
        {
          unsigned hz = highzeros (a), bz = highzeros (b); unsigned n = w - std::min (hz, bz);
          if (n < w && n > 0) return mk_zext (mk_bin (O_UREM, mk_extract (a, 0, n), mk_extract (b, 0, n)), w);
        }
      break;
    case O_SDIV:
    case O_SREM:
      if (isc (b) && sextw (b->cv, w) > 0 && highzeros (a) > 0) return mk_bin (op == O_SDIV ? O_UDIV : O_UREM, a, b);
      if (isc (b, 1)) return op == O_SDIV ? a : mk_const (0, w);
      { // operands sign extended from N bits: divide N bits (only MIN / -1 leaves them)
        unsigned na = sext_from (a), nb = sext_from (b), n = na > nb ? na : nb;
        if (n < w && w <= 64)
          {
            Expr *x = mk_extract (a, 0, n), *y = mk_extract (b, 0, n);
            if (n > 1 && !(isc (y) && y->cv == 0))
              {
                Expr *d = mk_sext (mk_bin (op, x, y), w);
                if (op == O_SREM) return mk_ite (mk_bin (O_EQ, y, mk_const (maskw (n), n)), mk_const (0, w), d);
                Expr *neg = mk_bin (O_SUB, mk_const (0, w), a);
                return mk_ite (mk_bin (O_EQ, y, mk_const (maskw (n), n)), neg, d);
              }
          }
      }
      break;
    case O_AND:
      if (isc (b, 0)) return b;
      if (isc (b, m)) return a;
      if (a == b) return a;
      if (isc (b))
        {
          unsigned n;
          if (is_lowmask (b->cv, &n)) return mk_zext (mk_extract (a, 0, n), w);
          if (a->op == O_AND && isc (a->b)) return mk_bin (O_AND, a->a, mk_const (a->b->cv & b->cv, w));
          if (a->op == O_CONCAT)
            return mk_concat (mk_bin (O_AND, a->a, mk_const (b->cv >> a->b->w, a->a->w)), mk_bin (O_AND, a->b, mk_const (b->cv, a->b->w)));
          if (a->op == O_ZEXT) return mk_zext (mk_bin (O_AND, a->a, mk_const (b->cv, a->a->w)), w);
        }
      else if (w == 1)
        {
          if (a == mk_not (b)) return mk_const (0, 1);
        }
      break;
    case O_OR:
      if (isc (b, 0)) return a;
      if (isc (b, m)) return b;
      if (a == b) return a;
      if (w > 1)
        {
          // zext (x) | (y << k) with k >= width of x: concat
          for (int k = 0; k < 2; k++)
            {
              Expr *x = k ? b : a, *y = k ? a : b;
              unsigned xn = w - highzeros (x);
              if (xn == 0) return y;
              if (xn < w && (y->op == O_CONCAT) && isc (y->b, 0) && y->b->w >= xn)
                return mk_concat (y->a, mk_extract (x, 0, y->b->w));
              if (xn < w && y->op == O_ZEXT && y->a->op == O_CONCAT && isc (y->a->b, 0) && y->a->b->w >= xn)
                return mk_zext (mk_concat (y->a->a, mk_extract (x, 0, y->a->b->w)), w);
            }
        }
      else if (a == mk_not (b)) return mk_const (1, 1);
      break;
    case O_XOR:
      if (isc (b, 0)) return a;
      if (a == b) return mk_const (0, w);
      if (isc (b) && a->op == O_XOR && isc (a->b)) return mk_bin (O_XOR, a->a, mk_const (a->b->cv ^ b->cv, w));
      break;
    case O_SHL:
      if (isc (b, 0)) return a;
      if (isc (a, 0)) return a;
      if (isc (b))
        {
          if (b->cv >= w) return mk_const (0, w);
          return mk_concat (mk_extract (a, 0, w - b->cv), mk_const (0, b->cv));
        }
      break;
    case O_LSHR:
      if (isc (b, 0)) return a;
      if (isc (a, 0)) return a;
      if (isc (b))
        {
          if (b->cv >= w) return mk_const (0, w);
          return mk_zext (mk_extract (a, b->cv, w - b->cv), w);
        }
      break;
    case O_ASHR:
      if (isc (b, 0)) return a;
      if (isc (a, 0)) return a;
      if (isc (b))
        {
          u64 s = b->cv >= w ? w - 1 : b->cv;
          return mk_sext (mk_extract (a, s, w - s), w);
        }
      break;
    case O_EQ:
      if (a == b) return mk_const (1, 1);
      if (uminv (a) > umaxv (b) || umaxv (a) < uminv (b)) return mk_const (0, 1);
      if (aw == 1) { if (isc (b)) return b->cv ? a : mk_not (a); }
      if (isc (b))
        {
          if (a->op == O_ZEXT)
            {
              if (b->cv >> a->a->w) return mk_const (0, 1);
              return mk_bin (O_EQ, a->a, mk_const (b->cv, a->a->w));
            }
          if (a->op == O_SEXT)
            {
              if ((u64) (sextw (b->cv, a->a->w)) != (u64) sextw (b->cv, w == 1 ? aw : aw)) return mk_const (0, 1);
              return mk_bin (O_EQ, a->a, mk_const (b->cv, a->a->w));
            }
          if (a->op == O_ADD && isc (a->b)) return mk_bin (O_EQ, a->a, mk_const (b->cv - a->b->cv, aw));
          if (a->op == O_SUB && b->cv == 0) return mk_bin (O_EQ, a->a, a->b);
          if (a->op == O_XOR && isc (a->b)) return mk_bin (O_EQ, a->a, mk_const (b->cv ^ a->b->cv, aw));
          if (a->op == O_XOR && b->cv == 0) return mk_bin (O_EQ, a->a, a->b);
          if (a->op == O_CONCAT)
            return mk_bin (O_AND, mk_bin (O_EQ, a->a, mk_const (b->cv >> a->b->w, a->a->w)), mk_bin (O_EQ, a->b, mk_const (b->cv, a->b->w)));
          if (a->op == O_ITE && (isc (a->b) || isc (a->c)))
            {
              Expr *x = mk_bin (O_EQ, a->b, b), *y = mk_bin (O_EQ, a->c, b);
              if (isc (x) || isc (y)) return mk_ite (a->a, x, y);
            }
          if (highzeros (a) > highzeros (b)) return mk_const (0, 1);
        }
      else
        {
          if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mk_bin (O_EQ, a->a, b->a);
          if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mk_bin (O_EQ, a->a, b->a);
          if (a->op == O_ADD && b->op == O_ADD && isc (a->b) && a->b == b->b) return mk_bin (O_EQ, a->a, b->a);
        }
      break;
    case O_ULT:
      if (a == b) return mk_const (0, 1);
      if (umaxv (a) < uminv (b)) return mk_const (1, 1);
      if (uminv (a) >= umaxv (b)) return mk_const (0, 1);
      if (isc (b, 0)) return mk_const (0, 1);
      if (isc (a, m)) return mk_const (0, 1);
      if (isc (b, 1)) return mk_bin (O_EQ, a, mk_const (0, aw));
      if (isc (a, 0)) return mk_not (mk_bin (O_EQ, b, a));
      if (isc (b) && a->op == O_ZEXT)
        {
          if (b->cv > maskw (a->a->w)) return mk_const (1, 1);
          return mk_bin (O_ULT, a->a, mk_const (b->cv, a->a->w));
        }
      if (isc (a) && b->op == O_ZEXT)
        {
          if (a->cv >= maskw (b->a->w)) return mk_const (0, 1);
          return mk_bin (O_ULT, mk_const (a->cv, b->a->w), b->a);
        }
      if (isc (b) && highzeros (b) < highzeros (a)) return mk_const (1, 1);
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mk_bin (O_ULT, a->a, b->a);
      break;
    case O_ULE:
      if (a == b) return mk_const (1, 1);
      if (umaxv (a) <= uminv (b)) return mk_const (1, 1);
      if (uminv (a) > umaxv (b)) return mk_const (0, 1);
      if (isc (a, 0)) return mk_const (1, 1);
      if (isc (b, m)) return mk_const (1, 1);
      if (isc (b, 0)) return mk_bin (O_EQ, a, b);
      if (isc (b) && a->op == O_ZEXT)
        {
          if (b->cv >= maskw (a->a->w)) return mk_const (1, 1);
          return mk_bin (O_ULE, a->a, mk_const (b->cv, a->a->w));
        }
      if (isc (a) && b->op == O_ZEXT)
        {
          if (a->cv > maskw (b->a->w)) return mk_const (0, 1);
          return mk_bin (O_ULE, mk_const (a->cv, b->a->w), b->a);
        }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mk_bin (O_ULE, a->a, b->a);
      break;
    case O_SLT:
    case O_SLE:
      if (a == b) return mk_const (op == O_SLE, 1);
      if (aw > 1)
        { // same sign on both sides: unsigned comparison; different signs: decided
          u64 sb = 1ULL << (aw - 1);
          int sa = umaxv (a) < sb ? 0 : uminv (a) >= sb ? 1 : 2, sc = umaxv (b) < sb ? 0 : uminv (b) >= sb ? 1 : 2;
          if (sa < 2 && sc < 2) { if (sa == sc) return mk_bin (op == O_SLT ? O_ULT : O_ULE, a, b); return mk_const (sa == 1, 1); }
        }
      // both operands known non-negative: unsigned comparison
      if (aw > 1 && highzeros (a) > 0 && highzeros (b) > 0) return mk_bin (op == O_SLT ? O_ULT : O_ULE, a, b);
      if (isc (b) && sextw (b->cv, aw) < 0 && highzeros (a) > 0) return mk_const (0, 1);
      if (isc (a) && sextw (a->cv, aw) < 0 && highzeros (b) > 0) return mk_const (1, 1);
      if (a->op == O_SEXT && isc (b))
        {
          unsigned n = a->a->w; s64 v = sextw (b->cv, aw);
          s64 lo = -(1LL << (n - 1)), hi = (1LL << (n - 1)) - 1;
          if (v > hi) return mk_const (1, 1);
          if (v < lo) return mk_const (0, 1);
          return mk_bin (op, a->a, mk_const (b->cv, n));
        }
      if (b->op == O_SEXT && isc (a))
        {
          unsigned n = b->a->w; s64 v = sextw (a->cv, aw);
          s64 lo = -(1LL << (n - 1)), hi = (1LL << (n - 1)) - 1;
          if (v > hi) return mk_const (0, 1);
          if (v < lo) return mk_const (1, 1);
          return mk_bin (op, mk_const (a->cv, n), b->a);
        }
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mk_bin (op, a->a, b->a);
      break;
    default: break;
    }
  return mk_raw (op, w, 0, a, b, nullptr, 0);
}

// ---------------------------------------------------------------- models
typedef std::unordered_map<u32, u64> ModelMap;
struct Model {
  std::vector<u64> v; // by symbol number; missing = 0
  u64 get (u32 s) const { return s < v.size () ? v[s] : 0; }
  void set (u32 s, u64 x) { if (s >= v.size ()) v.resize (s + 1, 0); v[s] = x; }
};
static u64 g_stamp = 0;
static u64 eval_rec (Expr *e, Model const &m)
{
  if (e->op == O_CONST) return e->cv;
  if (e->op == O_SYM) return m.get (e->cv) & maskw (e->w);
  if (e->evstamp == g_stamp) return e->evv;
  u64 r;
  switch (e->op)
    {
    case O_ZEXT: r = eval_rec (e->a, m); break;
    case O_SEXT: r = (u64) sextw (eval_rec (e->a, m), e->a->w) & maskw (e->w); break;
    case O_EXTRACT: r = (eval_rec (e->a, m) >> e->lo) & maskw (e->w); break;
    case O_CONCAT: r = (eval_rec (e->a, m) << e->b->w) | eval_rec (e->b, m); break;
    case O_ITE: r = eval_rec (e->a, m) ? eval_rec (e->b, m) : eval_rec (e->c, m); break;
    default: r = foldop (e->op, e->w, eval_rec (e->a, m), eval_rec (e->b, m), e->a->w);
    }
  e->evstamp = g_stamp; e->evv = r;
  return r;
}
static u64 eval (Expr *e, Model const &m) { g_stamp++; return eval_rec (e, m); }

// ---------------------------------------------------------------- Z3
static Z3_context Z;
static Z3_solver ZS;
static std::unordered_map<unsigned, Z3_sort> zsorts;
static Z3_sort zsort (unsigned w) { auto &s = zsorts[w]; if (!s) { s = Z3_mk_bv_sort (Z, w); Z3_inc_ref (Z, Z3_sort_to_ast (Z, s)); } return s; }

static void z3err (Z3_context c, Z3_error_code e) { fprintf (stderr, "z3 error: %s\n", Z3_get_error_msg (c, e)); abort (); }

// comparisons are kept as Bool inside to_bool, as bv1 in to_z
static Z3_ast to_z (Expr *e);
static std::unordered_map<Expr *, Z3_ast> g_zbool;
static Z3_ast zkeep (Z3_ast a) { Z3_inc_ref (Z, a); return a; }
static Z3_ast znum (u64 v, unsigned w) { return zkeep (Z3_mk_unsigned_int64 (Z, v, zsort (w))); }
static Z3_ast to_bool (Expr *e)
{
  auto it = g_zbool.find (e);
  if (it != g_zbool.end ()) return it->second;
  Z3_ast r;
  switch (e->op)
    {
    case O_CONST: r = e->cv ? Z3_mk_true (Z) : Z3_mk_false (Z); break;
    case O_EQ: if (e->a->w == 1) r = Z3_mk_iff (Z, to_bool (e->a), to_bool (e->b)); else r = Z3_mk_eq (Z, to_z (e->a), to_z (e->b)); break;
    case O_ULT: r = Z3_mk_bvult (Z, to_z (e->a), to_z (e->b)); break;
    case O_ULE: r = Z3_mk_bvule (Z, to_z (e->a), to_z (e->b)); break;
    case O_SLT: r = Z3_mk_bvslt (Z, to_z (e->a), to_z (e->b)); break;
    case O_SLE: r = Z3_mk_bvsle (Z, to_z (e->a), to_z (e->b)); break;
    case O_AND: { Z3_ast x[2] = {to_bool (e->a), to_bool (e->b)}; r = Z3_mk_and (Z, 2, x); break; }
    case O_OR: { Z3_ast x[2] = {to_bool (e->a), to_bool (e->b)}; r = Z3_mk_or (Z, 2, x); break; }
    case O_XOR: if (isc (e->b, 1)) r = Z3_mk_not (Z, to_bool (e->a)); else r = Z3_mk_xor (Z, to_bool (e->a), to_bool (e->b)); break;
    case O_ITE: r = Z3_mk_ite (Z, to_bool (e->a), to_bool (e->b), to_bool (e->c)); break;
    default: r = Z3_mk_eq (Z, to_z (e), znum (1, 1));
    }
  return g_zbool[e] = zkeep (r);
}
static Z3_ast to_z (Expr *e)
{
  if (e->z) return e->z;
  Z3_ast r;
  bool cmp = (e->op >= O_EQ && e->op <= O_SLE);
  if (cmp || (e->w == 1 && (e->op == O_AND || e->op == O_OR || e->op == O_XOR)))
    r = Z3_mk_ite (Z, to_bool (e), znum (1, 1), znum (0, 1));
  else switch (e->op)
    {
    case O_CONST: r = Z3_mk_unsigned_int64 (Z, e->cv, zsort (e->w)); break;
    case O_SYM:
      {
        char nm[32]; snprintf (nm, sizeof nm, "s%llu", (unsigned long long) e->cv);
        r = Z3_mk_const (Z, Z3_mk_string_symbol (Z, nm), zsort (e->w));
        g_syms[e->cv].z = zkeep (r);
        break;
      }
    case O_ADD: r = Z3_mk_bvadd (Z, to_z (e->a), to_z (e->b)); break;
    case O_SUB: r = Z3_mk_bvsub (Z, to_z (e->a), to_z (e->b)); break;
    case O_MUL: r = Z3_mk_bvmul (Z, to_z (e->a), to_z (e->b)); break;
    case O_UDIV: r = Z3_mk_bvudiv (Z, to_z (e->a), to_z (e->b)); break;
    case O_SDIV: r = Z3_mk_bvsdiv (Z, to_z (e->a), to_z (e->b)); break;
    case O_UREM: r = Z3_mk_bvurem (Z, to_z (e->a), to_z (e->b)); break;
    case O_SREM: r = Z3_mk_bvsrem (Z, to_z (e->a), to_z (e->b)); break;
    case O_AND: r = Z3_mk_bvand (Z, to_z (e->a), to_z (e->b)); break;
    case O_OR: r = Z3_mk_bvor (Z, to_z (e->a), to_z (e->b)); break;
    case O_XOR: r = Z3_mk_bvxor (Z, to_z (e->a), to_z (e->b)); break;
    case O_SHL: r = Z3_mk_bvshl (Z, to_z (e->a), to_z (e->b)); break;
    case O_LSHR: r = Z3_mk_bvlshr (Z, to_z (e->a), to_z (e->b)); break;
    case O_ASHR: r = Z3_mk_bvashr (Z, to_z (e->a), to_z (e->b)); break;
    case O_ZEXT:
      if (e->a->w == 1) r = Z3_mk_ite (Z, to_bool (e->a), znum (1, e->w), znum (0, e->w));
      else r = Z3_mk_zero_ext (Z, e->w - e->a->w, to_z (e->a));
      break;
    case O_SEXT: r = Z3_mk_sign_ext (Z, e->w - e->a->w, to_z (e->a)); break;
    case O_EXTRACT: r = Z3_mk_extract (Z, e->lo + e->w - 1, e->lo, to_z (e->a)); break;
    case O_CONCAT: r = Z3_mk_concat (Z, to_z (e->a), to_z (e->b)); break;
    case O_ITE: r = Z3_mk_ite (Z, to_bool (e->a), to_z (e->b), to_z (e->c)); break;
    default: abort ();
    }
  return e->z = zkeep (r);
}

struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cachehits = 0, tables = 0; double time = 0; double maxq = 0; };
static SolverStats SS;
static unsigned g_query_timeout_ms = 60000;
static int g_solver_mode = 0;

static void solver_init ()
{
  Z3_config cfg = Z3_mk_config ();
  Z = Z3_mk_context_rc (cfg);
  Z3_del_config (cfg);
  Z3_set_error_handler (Z, z3err);
  ZS = Z3_mk_solver_for_logic (Z, Z3_mk_string_symbol (Z, "QF_BV"));
  Z3_solver_inc_ref (Z, ZS);
  Z3_params p = Z3_mk_params (Z);
  Z3_params_inc_ref (Z, p);
  Z3_params_set_uint (Z, p, Z3_mk_string_symbol (Z, "timeout"), g_query_timeout_ms);
  Z3_solver_set_params (Z, ZS, p);
  Z3_params_dec_ref (Z, p);
}

// Is pc && extra satisfiable?  1 yes (model updated), 0 no, -1 unknown.
static std::unordered_map<std::vector<u32>, int, VecHash> g_qcache;
static int solve (std::vector<Expr *> const &pc, Expr *extra, Model *model)
{
  // independence slicing
  std::vector<Expr *> sel;
  std::vector<u32> syms = extra->syms->v;
  std::vector<bool> used (pc.size (), false);
  bool changed = true;
  while (changed)
    {
      changed = false;
      for (size_t i = 0; i < pc.size (); i++)
        if (!used[i])
          {
            auto const &v = pc[i]->syms->v;
            bool hit = false;
            size_t x = 0, y = 0;
            while (x < v.size () && y < syms.size ())
              { if (v[x] == syms[y]) { hit = true; break; } if (v[x] < syms[y]) x++; else y++; }
            if (hit)
              {
                used[i] = true; sel.push_back (pc[i]);
                std::vector<u32> r;
                std::set_union (v.begin (), v.end (), syms.begin (), syms.end (), std::back_inserter (r));
                if (r.size () != syms.size ()) { syms.swap (r); changed = true; }
              }
          }
    }
  std::vector<u32> key;
  for (Expr *e : sel) key.push_back (e->id);
  std::sort (key.begin (), key.end ());
  key.push_back (extra->id);
  auto it = g_qcache.find (key);
  if (it != g_qcache.end () && (it->second == 0 || !model)) { SS.cachehits++; return it->second; }
  if (syms.size () == 1 && g_syms[syms[0]].w <= 8)
    {
      // one symbol of at most 8 bits: the formula's truth table decides it
      SS.tables++;
      Model t;
      u32 sy = syms[0], lim = 1u << g_syms[sy].w;
      int r = 0;
      for (u32 x = 0; x < lim && !r; x++)
        {
          t.set (sy, x);
          bool ok = eval (extra, t);
          for (size_t i = 0; ok && i < sel.size (); i++) ok = eval (sel[i], t);
          if (ok) { r = 1; if (model) model->set (sy, x); }
        }
      g_qcache[key] = r;
      return r;
    }
  auto t0 = std::chrono::steady_clock::now ();
  SS.queries++;
  Z3_lbool res;
  auto dump = [&] ()
    {
      const char *dir = getenv ("SX_DUMP");
      if (!dir) return;
      char fn[256]; snprintf (fn, sizeof fn, "%s/q%llu.smt2", dir, (unsigned long long) SS.queries);
      FILE *f = fopen (fn, "w");
      fputs (Z3_solver_to_string (Z, ZS), f); fputs ("(check-sat)\n", f); fclose (f);
    };
  Z3_solver_push (Z, ZS);
  for (Expr *e : sel) Z3_solver_assert (Z, ZS, to_bool (e));
  Z3_solver_assert (Z, ZS, to_bool (extra));
  if (getenv ("SX_DUMPPRE")) dump ();
  res = Z3_solver_check (Z, ZS);
  if (res == Z3_L_TRUE && model)
    {
      Z3_model zm = Z3_solver_get_model (Z, ZS);
      Z3_model_inc_ref (Z, zm);
      for (u32 s : syms)
        {
          u64 v = 0;
          if (g_syms[s].z)
            {
              Z3_ast r;
              if (Z3_model_eval (Z, zm, g_syms[s].z, true, &r)) { uint64_t t; if (Z3_get_numeral_uint64 (Z, r, &t)) v = t; }
            }
          model->set (s, v);
        }
      Z3_model_dec_ref (Z, zm);
    }
  double dt = std::chrono::duration<double> (std::chrono::steady_clock::now () - t0).count ();
  static double dmin = getenv ("SX_DUMPMIN") ? atof (getenv ("SX_DUMPMIN")) : 5; if (dt > dmin || res == Z3_L_UNDEF) dump ();
  Z3_solver_pop (Z, ZS, 1);
  SS.time += dt; if (dt > SS.maxq) SS.maxq = dt;
  int r = res == Z3_L_TRUE ? 1 : res == Z3_L_FALSE ? 0 : -1;
  if (r == 1) SS.sat++; else if (r == 0) SS.unsat++; else SS.unknown++;
  g_qcache[key] = r;
  return r;
}
