// Thread pool: exactly N trials, termination, quiescence, deadlines, environment replacement (C01 C02 C03).
// The real ThtsPool runs with a root that is a leaf, so that a trial is: sample a context (start), visit the root,
// destroy the context (end).
#include "mc_main.h"
#include "toy.h"
#include <thread>

using namespace thts;
using std::shared_ptr; using std::make_shared;

namespace {
    struct Call { int n; double limit; bool blocking; };
    struct Script {
        const char* what;
        int threads;
        std::vector<Call> calls;
        int jumps;           // clock jumps explored
        double tick;
        double jump;
        int kind;            // 0: plain, 1: set_new_env while possibly busy, 2: destroy without waiting,
                             // 3: wait twice / wait before any call, 4: set_new_env between calls, 5: two threads wait
    };
    Script S;

    struct Mon {                       // heap allocated: accesses are race checked
        int started = 0, finished = 0;
    };
    struct Ghost {                     // bookkeeping of the harness, not part of the program
        int started = 0, finished = 0, active = 0;
        bool idle = true;              // no call outstanding: no trial may start
        bool destroyed = false;
        double limit = 1e300;
        long main_reads = 0;           // clock reads of the caller before the present call: its next one starts the limit
        bool finite = false;
        int base = -1;                 // >=0: inside a call
        long reads[16];                // clock reads a thread had made at its previous trial start
        int env_now = 0;               // index of the environment trials have to run on
        bool strict_env = false;
    };
    Ghost* g;
    Mon* mon;

    struct PCtx : public ThtsEnvContext {
        int env;
        PCtx(int env) : env(env) {}
        ~PCtx() override {
            mon_end();
        }
        static void mon_end();
    };

    class PEnv : public toy::Env {
        public:
            int index;
            std::mutex* mx;
            PEnv(int i, std::mutex* m) : index(i), mx(m) {}
            shared_ptr<ThtsEnvContext> sample_context_itfc(shared_ptr<const State> s) const override;
    };
    std::mutex* mon_mx;

    void ghost_start(int env) {
        mc_ghost_begin();
        g->started++; g->active++;
        long n; double last = mc_clock_last(&n);
        int me = mc_self() & 15;
        if (want("C03")) {
            if (g->idle) mc_fail("a trial started although no call was outstanding (after %d trials)", g->started - 1);
            if (g->finite) {
                if (n <= g->reads[me]) mc_fail("a trial started without looking at the clock although a time limit is set");
                double start = mc_clock_history(0, g->main_reads);
                // exact where the numbers are, else to the nanosecond
                double slack = g->limit == floor(g->limit) ? 0.0 : 2e-9;
                if (start >= 0 && last - start >= g->limit + slack) mc_fail("a trial started although its thread knew that %.9g s of at most %.9g s had passed", last - start, g->limit);
            }
            if (g->strict_env && env != g->env_now) mc_fail("a trial ran on a replaced environment");
        }
        if (want("C02") && g->destroyed) mc_fail("a trial started after the pool was destroyed");
        g->reads[me] = n;
        mc_ghost_end();
    }
    void PCtx::mon_end() {
        {
            std::lock_guard<std::mutex> lg(*mon_mx);
            mon->finished++;
        }
        mc_ghost_begin();
        g->finished++; g->active--;
        mc_ghost_end();
    }
    shared_ptr<ThtsEnvContext> PEnv::sample_context_itfc(shared_ptr<const State>) const {
        ghost_start(index);
        {
            std::lock_guard<std::mutex> lg(*mx);
            mon->started++;
        }
        return make_shared<PCtx>(index);
    }

    // after a blocking call or an explicit wait
    void check_idle(int expect_min, int expect_max, const char* when) {
        mc_ghost_begin();
        int st = g->started, fi = g->finished, ac = g->active;
        g->idle = true;
        mc_ghost_end();
        if (want("C03")) {
            if (ac != 0) mc_fail("%s: %d trial(s) still running", when, ac);
            // plain reads: the race detector decides whether the trials' effects are visible here
            int vs = mon->started, vf = mon->finished;
            if (vs != st || vf != fi) mc_fail("%s: effects of completed trials not visible", when);
        }
        if (want("C01")) {
            if (g->finite && g->base >= 0) {
                // a limit that has not been reached does not bind
                double start = mc_clock_history(0, g->main_reads);
                if (start < 0 || mc_clock_now() - start < g->limit - 2e-9) expect_min = expect_max;
            }
            if (st < expect_min || st > expect_max) mc_fail("%s: %d trials ran, expected %d", when, st, expect_min);
            if (fi != st && ac == 0) mc_fail("%s: %d of %d trials finished", when, fi, st);
        }
    }
    void begin_call(const Call& c) {
        mc_ghost_begin();
        g->idle = false;
        g->finite = c.limit < 1e200;
        g->limit = c.limit;
        g->base = g->started;
        mc_clock_last(&g->main_reads);
        mc_ghost_end();
    }

    shared_ptr<ThtsDNode> mkroot(shared_ptr<ThtsManager> m, shared_ptr<ThtsEnv> e) {
        return make_shared<UctDNode>(std::static_pointer_cast<UctManager>(m), e->get_initial_state_itfc(), 0, 0);
    }

    void body() {
        g = new Ghost(); memset(g->reads, 0, sizeof g->reads);
        mon = new Mon(); mon_mx = new std::mutex();
        {
            auto env = make_shared<PEnv>(0, mon_mx);
            UctManagerArgs a(env); a.max_depth = 0; a.seed = 7; a.heuristic_fn = nullptr;
            shared_ptr<ThtsManager> m = make_shared<UctManager>(a);
            auto root = mkroot(m, env);
            auto env2 = make_shared<PEnv>(1, mon_mx);
            UctManagerArgs a2(env2); a2.max_depth = 0; a2.seed = 7; a2.heuristic_fn = nullptr;
            shared_ptr<ThtsManager> m2 = make_shared<UctManager>(a2);
            auto root2 = mkroot(m2, env2);
            {
                auto pool = std::make_unique<ThtsPool>(m, root, S.threads);
                int total_min = 0, total_max = 0;
                bool outstanding = false;
                if (S.kind == 3) { pool->join(); check_idle(0, 0, "wait before any call"); }
                if (S.kind == 4) { pool->set_new_env(m2, root2); g->env_now = 1; g->strict_env = true; }
                for (size_t i = 0; i < S.calls.size(); i++) {
                    const Call& c = S.calls[i];
                    int before = 0;
                    mc_ghost_begin(); before = g->started; mc_ghost_end();
                    (void) before;
                    begin_call(c);
                    bool binding = c.limit < 1e200;
                    total_max += c.n > 0 ? c.n : 0;
                    if (!binding) total_min = total_max;
                    pool->run_trials(c.n, c.limit, c.blocking);
                    outstanding = !c.blocking;
                    if (c.blocking) {
                        check_idle(total_min, total_max, "after a blocking run");
                        mc_ghost_begin(); total_min = total_max = g->started; mc_ghost_end();
                        if (S.kind == 3) { pool->join(); check_idle(total_min, total_max, "second wait"); }
                        if (S.kind == 4) {
                            int e = (int) (i & 1);
                            pool->set_new_env(e ? m2 : m, e ? root2 : root);
                            mc_ghost_begin(); g->env_now = e; mc_ghost_end();
                        }
                    } else if (S.kind == 1) {
                        bool accepted = true;
                        mc_point();
                        try { pool->set_new_env(m2, root2); } catch (const std::runtime_error&) { accepted = false; }
                        mc_outcome(accepted ? "accepted" : "refused");
                        if (accepted) {
                            mc_ghost_begin();
                            if (want("C03")) {
                                if (g->active > 0) mc_fail("the environment was replaced while %d trial(s) were running", g->active);
                                if (!binding && g->started < total_max) mc_fail("the environment was replaced while %d trial(s) were pending", total_max - g->started);
                            }
                            g->env_now = 1; g->strict_env = true;
                            mc_ghost_end();
                        }
                    }
                    if (outstanding && !(S.kind == 2 && i + 1 == S.calls.size())) {
                        if (S.kind == 5) {
                            int lo = total_min, hi = total_max;
                            std::thread other([&]() { pool->join(); check_idle(lo, hi, "after another thread's wait"); });
                            pool->join();
                            check_idle(lo, hi, "after waiting together with another thread");
                            other.join();
                        }
                        else pool->join();
                        outstanding = false;
                        check_idle(total_min, total_max, "after waiting");
                        mc_ghost_begin(); total_min = total_max = g->started; mc_ghost_end();
                        if (S.kind == 1) {
                            bool accepted = true;
                            try { pool->set_new_env(m2, root2); } catch (const std::runtime_error&) { accepted = false; }
                            if (!accepted && want("C03")) mc_fail("replacing the environment of an idle pool was refused");
                            mc_ghost_begin(); g->env_now = 1; g->strict_env = true; mc_ghost_end();
                        }
                    }
                }
                pool.reset();
                mc_ghost_begin();
                g->destroyed = true;
                int ac = g->active, st = g->started;
                mc_ghost_end();
                if (want("C02") && ac != 0) mc_fail("%d trial(s) still running after the pool was destroyed", ac);
                if (want("C01") && st > total_max) mc_fail("%d trials ran in total, at most %d were requested", st, total_max);
                char b[64]; snprintf(b, sizeof b, "trials=%d", st); mc_outcome(b);
            }
        }
        delete mon; delete mon_mx; delete g;
    }

    std::vector<Script>& scripts() { static std::vector<Script> v; return v; }
    toy::Mdp mdp;
    void setup(int i) {
        S = scripts()[i];
        mdp.st.resize(1); mdp.st[0].acts = {{0, 1.0, {{0, 1.0, 0.0}}}};
        toy::G() = &mdp;
        mc_clock(0.0, S.tick, S.jumps, S.jump);
    }
}

int main(int argc, char** argv) {
    mc_host(1);
    const double INF = std::numeric_limits<double>::max();
    auto add = [&](const char* what, int threads, std::vector<Call> calls, int jumps, double tick, int kind,
                   const char* props, int tier, int pb, int pbt, int spur, double jump = 100.0) {
        Script s{what, threads, calls, jumps, tick, jump, kind};
        scripts().push_back(s);
        mc_configs().push_back({std::string("pool_") + what, std::string(props) + " C04 C23", tier, setup, body, (int) scripts().size() - 1, pb, pbt, spur});
    };
    add("t1_n2",        1, {{2, INF, true}},                              0, 0, 0, "C01 C02 C03", 0, -1, -1, 1);
    add("t2_n1",        2, {{1, INF, true}},                              0, 0, 0, "C01 C02 C03", 0, -1, -1, 0);
    add("t2_n2",        2, {{2, INF, true}},                              0, 0, 0, "C01 C02 C03", 0,  4,  6, 0);
    add("t2_n3",        2, {{3, INF, true}},                              0, 0, 0, "C01 C02 C03", 0,  3,  5, 0);
    add("t2_n2_spur",   2, {{2, INF, true}},                              0, 0, 0, "C01 C02 C03", 0,  2,  4, 2);
    add("t3_n2",        3, {{2, INF, true}},                              0, 0, 0, "C01 C02 C03", 0,  2,  3, 0);
    add("t1_n1_n1",     1, {{1, INF, true}, {1, INF, true}},              0, 0, 0, "C01 C02 C03", 0, -1, -1, 1);
    add("t2_n1_n2",     2, {{1, INF, true}, {2, INF, true}},              0, 0, 0, "C01 C02 C03", 0,  3,  4, 0);
    add("t2_nb_n2",     2, {{2, INF, false}, {1, INF, true}},             0, 0, 0, "C01 C02 C03", 0,  3,  4, 0);
    add("t1_neg",       1, {{0, INF, true}, {-3, INF, true}, {1, INF, true}}, 0, 0, 0, "C01 C02 C03", 0, -1, -1, 0);
    add("t2_zero_nb",   2, {{0, INF, false}, {1, INF, false}},            0, 0, 0, "C01 C02 C03", 0,  3,  4, 0);
    add("t1_join_first",1, {{1, INF, true}},                              0, 0, 3, "C01 C02 C03", 0, -1, -1, 1);
    add("t2_join_twice",2, {{1, INF, true}},                              0, 0, 3, "C01 C02 C03", 0,  3,  5, 0);
    add("t1_waiters",   1, {{1, INF, false}},                             0, 0, 5, "C01 C02 C03", 0,  3, -1, 0);
    add("t2_waiters",   2, {{1, INF, false}},                             0, 0, 5, "C01 C02 C03", 0,  2,  3, 0);
    add("t1_waiters_l", 1, {{2, 5.0, false}},                             1, 0, 5, "C01 C02 C03", 0,  2,  3, 0);
    add("t1_many",      1, {{70000, INF, true}, {1, INF, true}},          0, 0, 0, "C01", 0,  0,  0, 0);
    mc_configs().back().steps = 4000000;
    // time limits: the clock may jump past the limit at any read
    add("t1_lim",       1, {{2, 5.0, true}},                              1, 0, 0, "C01 C02 C03", 0, -1, -1, 0);
    add("t1_lim_tick",  1, {{4, 3.5, true}},                              0, 1, 0, "C01 C02 C03", 0, -1, -1, 0);
    add("t2_lim",       2, {{2, 5.0, true}},                              1, 0, 0, "C01 C02 C03", 0,  3,  4, 0);
    add("t2_lim_nb",    2, {{2, 5.0, false}},                             1, 0, 0, "C01 C02 C03", 0,  3,  4, 0);
    add("t2_lim_then",  2, {{2, 5.0, true}, {1, INF, true}},              1, 0, 0, "C01 C02 C03", 0,  2,  3, 0);
    add("t1_lim2",      1, {{2, 5.0, true}, {2, 5.0, true}},              2, 0, 0, "C01 C02 C03", 0,  3, -1, 0);
    add("t1_lim_zero",  1, {{2, 0.0, true}, {1, INF, true}},              0, 0, 0, "C01 C02 C03", 0, -1, -1, 1);
    add("t2_lim_spur",  2, {{2, 5.0, true}},                              1, 0, 0, "C02", 0,  1,  3, 1);
    // limits of every magnitude, reached exactly, by a fraction or not at all
    add("t1_lim_ms",    1, {{8, 0.0016, true}},                           0, 0.0003, 0, "C01 C02 C03", 0, -1, -1, 0);
    add("t1_lim_us",    1, {{8, 1.6e-6, true}},                           0, 3e-7, 0, "C01 C02 C03", 0, -1, -1, 0);
    add("t1_lim_frac",  1, {{3, 1.75, true}},                             1, 0.5, 0, "C01 C02 C03", 0, -1, -1, 0, 0.25);
    add("t1_lim_exact", 1, {{3, 5.0, true}},                              1, 0, 0, "C01 C02 C03", 0, -1, -1, 0, 5.0);
    add("t2_lim_exact", 2, {{2, 2.0, true}},                              2, 0, 0, "C01 C02 C03", 0,  2,  3, 0, 1.0);
    add("t1_lim_near",  1, {{3, 5.0, true}, {1, 2.0, true}},              1, 0, 0, "C01 C02 C03", 0, -1, -1, 0, 4.5);
    add("t1_lim_hour",  1, {{2, 3600.0, true}},                           1, 0, 0, "C01 C02 C03", 0, -1, -1, 0, 3599.5);
    add("t1_lim_big",   1, {{2, 1e10, true}, {2, 1e18, true}, {1, 1e300, true}}, 1, 0, 0, "C01 C02 C03", 0, -1, -1, 0);
    add("t2_lim_nb_ms", 2, {{2, 0.0025, false}, {1, INF, true}},          0, 0.0007, 0, "C01 C02 C03", 0,  2,  3, 0);
    // calls that follow one stopped by its limit
    add("t1_lim_none",  1, {{3, 5.0, true}, {0, INF, true}, {-2, 5.0, true}, {1, INF, true}}, 1, 0, 0, "C01 C02 C03", 0, -1, -1, 0);
    add("t2_lim_none",  2, {{3, 5.0, false}, {0, INF, false}, {1, INF, true}}, 1, 0, 0, "C01 C02 C03", 0,  1,  3, 0);
    add("t1_lim_same",  1, {{2, 5.0, true}, {2, 5.0, true}, {2, 5.0, true}}, 1, 1, 0, "C01 C02 C03", 0,  2, -1, 0);
    // destruction without waiting
    add("t1_drop",      1, {{2, INF, false}},                             0, 0, 2, "C01 C02", 0, -1, -1, 1);
    add("t2_drop",      2, {{2, INF, false}},                             0, 0, 2, "C01 C02", 0,  3,  5, 0);
    add("t2_drop_lim",  2, {{2, 5.0, false}},                             1, 0, 2, "C01 C02", 0,  2,  3, 0);
    add("t3_none",      3, {},                                            0, 0, 0, "C02 C03", 0,  3, -1, 0);
    // replacing the environment
    add("t1_setenv_nb", 1, {{1, INF, false}, {1, INF, true}},             0, 0, 1, "C02 C03", 0, -1, -1, 0);
    add("t2_setenv_nb", 2, {{2, INF, false}},                             0, 0, 1, "C02 C03", 0,  3,  4, 0);
    add("t1_setenv_lim",1, {{2, 5.0, false}},                             1, 0, 1, "C02 C03", 0, -1, -1, 0);
    add("t2_setenv_seq",2, {{1, INF, true}, {1, INF, true}},              0, 0, 4, "C01 C02 C03", 0,  2,  3, 0);
    add("t1_setenv_seq",1, {{1, INF, true}, {1, INF, true}},              0, 0, 4, "C01 C02 C03", 0, -1, -1, 0);
    // deeper, thorough only
    add("t3_n3",        3, {{3, INF, true}},                              0, 0, 0, "C01 C02 C03", 1,  2,  3, 0);
    add("t2_n4",        2, {{4, INF, true}},                              0, 0, 0, "C01 C02 C03", 1,  3,  4, 1);
    add("t2_n2_n2",     2, {{2, INF, true}, {2, INF, false}, {1, INF, true}}, 0, 0, 0, "C01 C02 C03", 1,  3,  3, 0);
    add("t3_lim",       3, {{3, 5.0, true}},                              1, 0, 0, "C01 C02 C03", 1,  2,  3, 0);
    add("t2_lim_lim",   2, {{2, 5.0, true}, {2, 5.0, true}},              2, 0, 0, "C01 C02 C03", 1,  2,  3, 0);
    mc_host(0);
    return mc_run_main(argc, argv);
}
