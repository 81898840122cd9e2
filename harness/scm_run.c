#include "kscm.h"
int sx_main (void) { k_scm (SCRIPT); sx_fail ("returned"); return 0; }
