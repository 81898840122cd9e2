/* Scheme objects with symbolic contents, described independently of the heap */
struct obj { int kind; long v; struct scm *p; struct obj *a, *d; int n; struct obj *e[3]; };
enum { ONUM, OCHAR, OSYM, OSYM2, ONIL, OTRUE, OFALSE, OSTR, OKEY, OPAIR, OVEC };
static struct obj o_pool[64]; static int o_n;
static struct obj *o_new (int k) { struct obj *o = o_pool + o_n++; o->kind = k; return o; }
static struct obj *o_make (int k)
{
  struct obj *o = o_new (k);
  static char b[4];
  switch (k)
    {
    case ONUM: o->v = sx_u64 ("number"); o->p = make_number (o->v); break;
    case OCHAR: o->v = sx_int (0, 255, "char"); o->p = make_char (o->v); break;
    case OSYM: o->p = cstring_to_symbol ("abc"); break;
    case OSYM2: o->p = cstring_to_symbol ("abd"); break;
    case ONIL: o->p = cell_nil; break;
    case OTRUE: o->p = cell_t; break;
    case OFALSE: o->p = cell_f; break;
    case OSTR: case OKEY:
      o->v = sx_int (0, 255, "byte");
      b[0] = 'k'; b[1] = o->v; b[2] = 0;
      o->p = make_string (b, 2);
      if (k == OKEY) o->p = symbol_to_keyword (o->p);
      break;
    }
  return o;
}
static struct obj *o_pair (struct obj *a, struct obj *d) { struct obj *o = o_new (OPAIR); o->a = a; o->d = d; o->p = cons (a->p, d->p); return o; }
/* eq?: identity; numbers, characters and keywords by value */
static int o_eq (struct obj *x, struct obj *y)
{
  if (x->p == y->p) return 1;
  if (x->kind != y->kind) return 0;
  if (x->kind == ONUM || x->kind == OCHAR || x->kind == OKEY) return x->v == y->v;
  return 0;
}
static int o_equal (struct obj *x, struct obj *y)
{
  if (x->kind != y->kind) return 0;
  if (x->kind == OSTR) return x->v == y->v;
  if (x->kind == OPAIR) return o_equal (x->a, y->a) & o_equal (x->d, y->d);
  if (x->kind == OVEC)
    {
      if (x->n != y->n) return 0;
      int r = 1;
      for (int i = 0; i < x->n; i++) r &= o_equal (x->e[i], y->e[i]);
      return r;
    }
  return o_eq (x, y);
}
/* P still is the object that O describes */
static int o_is (struct obj *o, struct scm *p)
{
  switch (o->kind)
    {
    case ONUM: return p->type == TNUMBER && p->value == o->v;
    case OCHAR: return p->type == TCHAR && p->value == o->v;
    case OSTR: return p->type == TSTRING && p->length == 2 && cell_bytes (p->string)[0] == 'k' && (cell_bytes (p->string)[1] & 255) == o->v && cell_bytes (p->string)[2] == 0;
    case OKEY: return p->type == TKEYWORD && p->length == 2 && (cell_bytes (p->string)[1] & 255) == o->v;
    case OPAIR: return p->type == TPAIR && o_is (o->a, p->car) && o_is (o->d, p->cdr);
    case OVEC: return p->type == TVECTOR && p->length == o->n;
    }
  return p == o->p;
}
