/* The whole compiler translation unit, exactly as the host compiler sees it:
 * src/main.c of the tree under check, with its own #include order.  Only
 * process-level names are redirected: main (so that the harness owns the entry
 * point) and the ways of giving up (abort, exit). */
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"
static void vp_tu_abort(void) { vp_giveup(); }
static void vp_tu_exit(int code) { (void) code; vp_giveup(); }
#define abort vp_tu_abort
#define exit vp_tu_exit
#define main shecc_main
#include "main.c"
#undef main
#undef abort
#undef exit
/* cbmc: error() is replaced by this (goto-instrument --replace-calls); its
 * diagnostics scan the source buffer and then abort. */
void vp_error(char *msg)
{
    (void) msg;
    vp_giveup();
}
