#include "utility/abort.h"
#include <csignal>
#include <cstdlib>
#include "symrt.h"
// Termination signals around a protected section (a checkpoint being written). signal() and exit() are the environment: they are renamed
// on the command line and modelled here.
typedef void (*H)(int);
static H HD[2]; static int EXITS, CODE;
static int slot(int s) { return s == SIGINT ? 0 : 1; }
extern "C" H verif_signal(int s, H h) { H o = HD[slot(s)]; HD[slot(s)] = h; return o; }
extern "C" void verif_exit(int c) { if (!EXITS++) CODE = c; }
extern "C" void verif__exit(int c) { verif_exit(c); }
extern "C" int verif_sigaction(int s, const struct sigaction *n, struct sigaction *o) { H h = HD[slot(s)]; if (n) HD[slot(s)] = n->sa_handler; if (o) { *o = {}; o->sa_handler = h; } return 0; }
static int num(int k) { return k ? SIGTERM : SIGINT; }
// delivers a signal; true if it ended the program
static bool raise_(int s) { H h = HD[slot(s)]; if (h == SIG_DFL) { if (!EXITS++) CODE = s; return true; } int e = EXITS; h(s); return EXITS != e; }
HARNESS(h_signal)
{
    HD[0] = HD[1] = SIG_DFL; EXITS = 0; int N = sym_param("STEPS", 5);
    {
        InterruptHandler I; bool in = false; int pend = 0; sym_check(!I.IsDelaying(), "not-delaying-at-first");
        for (int k = 0; k < N; k++) {
            int a = sym_pick("step", 0, 3);
            if (a == 0) { I.Delay(); in = true; sym_check(EXITS == 0, "delay-does-not-end"); sym_check(I.IsDelaying(), "delaying"); }
            else if (a == 1) {
                I.Resume();
                if (in & pend != 0) { sym_check((EXITS != 0) & ((CODE == SIGINT & (pend & 1) != 0) | (CODE == SIGTERM & (pend & 2) != 0)), "deferred-signal-delivered"); sym_reach("delivered"); return; }
                sym_check(EXITS == 0, "resume-without-signal"); sym_check(!I.IsDelaying(), "not-delaying"); in = false;
            } else {
                int s = num(a - 2); bool e = raise_(s);
                if (in) { sym_check(!e, "signal-deferred"); pend |= 1 << (a - 2); }
                else { sym_check(e & CODE == s, "signal-ends-at-once"); sym_reach("ended"); return; }
            }
        }
        sym_reach("end");
    }
    sym_check(HD[0] == SIG_DFL & HD[1] == SIG_DFL, "handlers-restored");
}
