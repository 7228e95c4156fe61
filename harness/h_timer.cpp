#include "utility/timer.h"
#include "symrt.h"
// Interval timers under an arbitrary non-decreasing clock; time() and clock() are renamed on the command line and modelled here.
static long NOW, T0, CLK;
extern "C" time_t verif_time(time_t *t) { long d = sym_int("tick", 0, 100000); NOW += d; if (t) *t = NOW; return NOW; }
extern "C" clock_t verif_clock(void) { long d = sym_int("clk", 0, 1000000); CLK += d; return CLK; }
HARNESS(h_timer)
{
    NOW = sym_int("now", 0, 1000000); CLK = sym_int("clk0", 0, 1000); timer t; t.start(); sym_check(t.running, "running"); long last = NOW; int N = sym_param("STEPS", 4);
    for (int k = 0; k < N; k++) {
        long before = NOW; int a = sym_pick("step", 0, 2);
        if (a == 0) { t.start(); sym_check(t.start_time == last, "start-again-keeps"); }
        else if (a == 1) { t.restart(); last = NOW; sym_check(t.start_time == last & t.running & t.acc_time == 0, "restart"); }
        else {
            long iv = sym_int("interval", 0, 1000000); bool f = t.check(iv);
            // NOW has only moved on since the check looked at the clock: fired too early or too late are both visible
            if (f) { sym_check(NOW - last >= iv, "fires-not-early"); last = t.start_time; sym_check(last >= before & last <= NOW, "fires-restarts"); sym_check(t.running, "still-running"); }
            else { sym_check(before - last < iv, "fires-when-due"); sym_check(t.start_time == last, "not-due-keeps"); }
        }
    }
    sym_reach("end");
}
HARNESS(h_elapsed)
{
    NOW = sym_int("now", 0, 1000000); CLK = 0; timer t; double z = t.acc_time; t.stop(); sym_check(t.acc_time == z & !t.running, "stop-idle");
    t.start(); long c0 = CLK, s0 = NOW; double e; t.stop(); e = t.acc_time; sym_check(!t.running, "stopped");
    sym_check(e >= 0, "elapsed-positive"); if (NOW - s0 < 3600) sym_check(e * 1e6 == (double)(CLK - c0), "elapsed-cpu"); else sym_check(e == (double)(NOW - s0), "elapsed-wall");
    t.stop(); sym_check(t.acc_time == e, "stop-twice"); t.start(); t.stop(); sym_check(t.acc_time >= e, "elapsed-adds"); t.restart(); sym_check(t.acc_time == 0 & t.running, "restart-clears"); sym_reach("end");
}
