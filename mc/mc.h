// Interface between a harness (compiled with -fsanitize=thread, our own __tsan_* runtime) and the model-checking
// runtime libmcrt.so.  The runtime never includes headers of the code under test.
#pragma once
#include <cstdint>
#include <cstddef>

extern "C" {
    // ---- exploration -------------------------------------------------------------------------------------------
    struct McOptions {
        int preemption_bound;      // <0: unbounded (all happens-before classes)
        int spurious_budget;       // number of spurious condition-variable wake-ups per execution
        int timeout_budget;        // number of early time-outs of timed waits per execution
        long step_limit;           // scheduling points in one execution before it is called a livelock
        double time_limit_s;       // stop exploring after this long (result then reports capped=1)
        long max_executions;       // <=0: none
        int use_cache;             // happens-before state caching on
        int race_check;            // vector clock race detector on
        int leak_check;            // live allocations at end of body must equal those at its start
    };
    struct McResult {
        long executions, pruned, transitions, states, max_depth, choice_points, outcomes;
        long race_accesses;
        int max_threads;
        int complete;              // whole bounded space enumerated
        int bound_hit;             // the preemption bound left out at least one alternative
        int violation;             // 0/1
        char message[4000];
    };
    void mc_default_options(McOptions*);
    // runs body under the explorer; returns at the first violation or when the space is exhausted
    void mc_explore(void (*body)(void), const McOptions*, McResult*, const char* trace_out);
    // replays a recorded choice sequence verbosely; returns 1 if it ends in a violation
    int mc_replay(void (*body)(void), const McOptions*, const char* trace_file, char* msg, size_t msglen, int verbose);
    // snapshots writable program state; call once in main after configuration, before mc_explore
    void mc_snapshot(void);
    // allocations between mc_host(1) and mc_host(0) are constants of the harness: not restored, not race checked
    void mc_host(int on);

    // ---- used inside a body ------------------------------------------------------------------------------------
    int mc_choose(int n, const char* tag);                 // nondeterministic value in [0,n)
    [[noreturn]] void mc_fail(const char* fmt, ...);       // property violated on this execution
    [[noreturn]] void mc_stop(void);                       // end this execution quietly (assumption not met)
    void mc_outcome(const char* s);                        // record an observed outcome (distinct ones are counted)
    void mc_note(const char* fmt, ...);                    // trace annotation (kept for samples and replays)
    int mc_self(void);                                     // dense id of the running thread (main = 0)
    void mc_point(void);                                   // an explicit scheduling point
    void mc_touch(uint64_t obj);                           // visible operation on a ghost object
    struct McStamp { int tid; uint32_t clk; };
    McStamp mc_stamp(void);                                // identifies the present event
    int mc_before_now(McStamp);                            // did that event happen before (in the HB order) now?
    void mc_ghost_begin(void);                             // accesses in a ghost section are not program accesses
    void mc_ghost_end(void);
    long mc_live_allocs(void);
    long mc_step(void);

    // ---- virtual clock -----------------------------------------------------------------------------------------
    // reads return base+now; each read adds tick seconds; while jumps are left every read also offers (as an explored
    // choice) to first jump the clock forward by jump seconds.
    void mc_clock(double now, double tick, int jumps, double jump);
    double mc_clock_now(void);
    void mc_clock_advance(double dt);
    long mc_clock_reads(void);
    double mc_clock_history(int tid, long i);              // i-th value read by a thread (-1: not yet)
    double mc_clock_last(long* reads);                     // last value this thread read (-1: none) and how often it read
    int mc_sample_count(void); const char* mc_sample(int);
    int mc_outcome_sample_count(void); const char* mc_outcome_sample(int);
}
