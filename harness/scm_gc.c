/* Scheme programs in which collections happen at chosen moments: at one evaluation step, or at every n-th. */
#define K_MORE
#include "kscm.h"
static long at = -1, every, gcs;
struct scm *SX_WRAP (gc_check) (void)
{
  if (at >= 0 && at-- == 0) { gc (); gcs++; if (every) at = every - 1; }
  return cell_unspecified;
}
static struct scm *b_at (struct scm *n, struct scm *m) { at = n->value; every = m->value; return cell_unspecified; }
static struct scm *b_ran (void) { at = -1; if (!gcs) sx_kill (); return cell_unspecified; }
static void k_more (void)
{
  k_builtin ("sx-gc-at", 2, b_at);
  k_builtin ("sx-gc-ran", 0, b_ran);
}
int sx_main (void) { k_scm (SCRIPT); sx_fail ("returned"); return 0; }
