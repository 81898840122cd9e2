/* Harness API.  In symx these are engine primitives; natively (replay) they are provided by rt.c. */
#ifndef SX_H
#define SX_H
void sx_bytes (void *p, long n, char const *name);
long sx_int (long lo, long hi, char const *name);
long sx_u64 (char const *name);
long sx_choice (long n);        /* forks: 0..n-1 */
long sx_case (long n);          /* one engine process per value */
long sx_concrete (long v);      /* fork over every feasible value */
void sx_assume (int c);
void sx_assert (int c, char const *id);
void sx_fail (char const *id);
void sx_cover (char const *id);
void *sx_malloc (long n);       /* object with unspecified contents */
void *sx_zmalloc (long n);
void sx_free (void *p);
long sx_obj_size (void *p);
int sx_readable (void const *p, long n);
int sx_same_object (void *p, void *q);
void sx_done (void);
void sx_kill (void);            /* drop this path (outside the bounds) */
int sx_engine (void);
long sx_select (int c, long a, long b);
long sx_host_file (char const *name, void **buf);
void sx_print (char const *s, long v);
void sx_mode (int m);
#ifdef SX_NATIVE
#define SX_OVERRIDE(name) name
#define SX_WRAP(name) __wrap_##name
#define SX_ORIG(name) __real_##name
#else
#define SX_OVERRIDE(name) sx_override_##name
#define SX_WRAP(name) sx_override_##name
#define SX_ORIG(name) sx_orig_##name
#endif
#endif
