// Runs a guest script whose assertions are hxCheck/hxEq calls over symbolic values.
#include "hx.h"
int harness(void) {
  hx_init();
#ifdef MAXINST
  sym_inst_limit(MAXINST, 1);
#endif
  sym_check(hx_run(LOXSRC), "script runs to its end");
  sym_check(!IS_NIL(hx_glob("done")), "last statement reached");
  sym_done();
}
