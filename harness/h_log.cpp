// Search logs (C20): all schedules of the workers, all histories of trial durations, several calls on one logger.
// Only the written table is looked at; the virtual clock moves inside trials (and between calls, which does not count).
#include "mc_main.h"
#include "toy.h"
#include "tree.h"

#include <functional>
#include <map>

using namespace thts;
using namespace toy;
using std::shared_ptr; using std::make_shared;

namespace {
    Mdp fork2() {
        Mdp m; m.st.resize(4);
        m.st[0] = {false, 0.5, {{0, 1.0, {{1, 0.5, 0.5}, {2, 0.5, 0}}}, {1, 2.0, {{2, 0.5, 0}, {1, 0.5, 0}}}}, {0.5, 0.5}};
        m.st[1] = {false, 2.0, {{0, -4.0, {{3, 1.0, 0}}}, {1, 3.0, {{3, 1.0, 0}}}}, {0.5, 0.5}};
        m.st[2] = {false, -1.0, {{0, 0.25, {{3, 1.0, 0}}}, {1, 1.0, {{3, 1.0, 0}}}}, {0.5, 0.5}};
        m.st[3] = {true, 0.0, {}, {}};
        return m;
    }
    struct Call { int n; double limit; bool blocking; };
    struct Scen {
        std::string name; Cfg cfg; int threads; std::vector<Call> calls; int D; double d;   // intervals (0: not set)
        bool base_logger, new_pool; int dur_choices; bool free_actions;
    };
    Scen S; Mdp M;
    std::vector<Scen>& scens() { static std::vector<Scen> v; return v; }
    const double DUR[4] = {0.31, 2.57, 0.0, 0.83};

    struct Snap { long visits; std::map<std::string,double> val; double run; };
    struct Ghost { std::vector<double> started; std::vector<Snap> after; const ThtsDNode* root = nullptr; double total = 0; int act[16] = {}; };
    Ghost* g;
    struct GhostScope { GhostScope() { mc_ghost_begin(); } ~GhostScope() { mc_ghost_end(); } };

    Snap snap() {                                  // statistics of the root as printed
        auto p = parse_tree(g->root->get_pretty_print_string(0));
        return {p->visits, p->named, g->total};
    }
    struct LHooks : public EnvHooks {
        shared_ptr<ThtsEnvContext> make_context(int) override {
            if (S.threads == 1) { GhostScope gs; if (!g->started.empty()) g->after.push_back(snap()); }
            double d = DUR[mc_choose(S.dur_choices, "duration")];
            mc_clock_advance(d);
            int a = S.free_actions ? mc_choose(2, "action") : 0;
            GhostScope gs;
            g->started.push_back(d); g->total += d; g->act[mc_self() & 15] = a;
            return nullptr;
        }
    };
    struct LDraws : public Draws {
        int v() { GhostScope gs; return g->act[mc_self() & 15]; }
        int draw_int(int lo, int hi) override { return lo + v() % (hi - lo); }
        double draw_uniform() override { return v() ? 0.95 : 0.05; }
    };

    std::vector<std::string> split(const std::string& s, char c) {
        std::vector<std::string> o; std::string cur;
        for (char x : s) { if (x == c) { o.push_back(cur); cur.clear(); } else cur += x; }
        o.push_back(cur); return o;
    }
    bool eq(double x, double y) { return fabs(x - y) <= 2e-5 * std::max(1.0, std::max(fabs(x), fabs(y))); }

    std::string header() {
        if (S.base_logger) return "runtime,num_visits";
        if (is_uct(S.cfg.algo)) return "runtime,num_visits,num_backups,avg_return";
        if (S.cfg.algo == DBMENTS || S.cfg.algo == DENTS || S.cfg.algo == EST) return "runtime,num_visits,num_backups,soft_value,dp_value";
        return "runtime,num_visits,num_backups,soft_value";
    }
    // the values a row must carry besides runtime and visits
    bool values_ok(const std::vector<double>& row, const Snap& s, long backups, std::string& why) {
        if (S.base_logger) return true;
        if (row[2] != backups) { why = "num_backups"; return false; }
        auto val = [&](const char* k) { auto it = s.val.find(k); return it == s.val.end() ? std::nan("") : it->second; };
        int a = S.cfg.algo;
        if (is_uct(a) || a == MENTS || a == RENTS || a == TENTS) { if (!eq(row[3], val("vl"))) { why = "value"; return false; } }
        else {
            if (a != EST && !eq(row[3], val("soft_val"))) { why = "soft value"; return false; }
            if (S.cfg.use_dp && !eq(row[4], val("vl"))) { why = "dp value"; return false; }
        }
        return true;
    }

    void check(ThtsLogger& lg) {
        GhostScope gs;
        if (S.threads == 1) g->after.push_back(snap());
        std::ostringstream os; lg.write_to_ostream(os);
        std::string text = os.str();
        auto lines = split(text, '\n');
        if (lines.back() != "") mc_fail("the table does not end with a line end: %s", text.c_str());
        lines.pop_back();
        if (lines.empty()) mc_fail("the table is empty");
        std::string hist = "durations";
        for (double d : g->started) hist += " " + std::to_string(d);
        if (lines[0] != header()) mc_fail("header '%s', expected '%s'", lines[0].c_str(), header().c_str());
        size_t cols = split(header(), ',').size();
        std::vector<std::vector<double>> rows;
        for (size_t i = 1; i < lines.size(); i++) {
            auto f = split(lines[i], ',');
            if (f.size() != cols) mc_fail("row %zu has %zu columns instead of %zu: %s", i, f.size(), cols, text.c_str());
            std::vector<double> r;
            for (auto& x : f) { char* e; r.push_back(strtod(x.c_str(), &e)); if (e == x.c_str() || *e) mc_fail("row %zu holds '%s'", i, x.c_str()); }
            rows.push_back(r);
        }
        if ((int) rows.size() != lg.size()) mc_fail("%zu rows written, the logger has %d entries", rows.size(), lg.size());
        if (rows.empty()) mc_fail("no origin entry");
        for (double x : rows[0]) if (x != 0.0) mc_fail("the first row is not the origin: %s", text.c_str());
        for (size_t i = 1; i < rows.size(); i++) {
            if (rows[i][0] < rows[i-1][0] - 1e-9) mc_fail("running time decreases in row %zu: %s", i + 1, text.c_str());
            if (rows[i][1] < rows[i-1][1]) mc_fail("visits decrease in row %zu: %s", i + 1, text.c_str());
        }
        size_t n = g->started.size();
        int pseudo = is_uct(S.cfg.algo) ? (S.cfg.heuristic ? S.cfg.pseudo : 0) : 0;
        std::string why;
        if (S.threads == 1) {
            std::vector<size_t> due; size_t last = 0; double next = S.d;
            for (size_t k = 1; k <= n; k++) {
                bool e = false;
                if (S.D && k - last >= (size_t) S.D) { last = k; e = true; }
                if (S.d) {
                    if (fabs(g->after[k-1].run - next) < 1e-6) mc_fail("harness: durations hit an interval exactly");
                    if (g->after[k-1].run >= next) { next += S.d; e = true; }
                }
                if (e) due.push_back(k);
            }
            if (rows.size() != due.size() + 1) mc_fail("%zu entries after the origin, expected %zu; %s; table\n%s", rows.size() - 1, due.size(), hist.c_str(), text.c_str());
            for (size_t i = 0; i < due.size(); i++) {
                auto& r = rows[i + 1]; size_t k = due[i]; const Snap& s = g->after[k-1];
                if (!eq(r[0], s.run)) mc_fail("row %zu: running time %g, expected %g; %s", i + 2, r[0], s.run, hist.c_str());
                if (r[1] != s.visits || s.visits != (long) k + pseudo) mc_fail("row %zu: %g visits, expected %zu; %s", i + 2, r[1], k, hist.c_str());
                if (!values_ok(r, s, (long) k + pseudo, why)) mc_fail("row %zu: wrong %s (root: vl %g); %s; table\n%s", i + 2, why.c_str(), s.val.at("vl"), hist.c_str(), text.c_str());
            }
        } else {
            if (S.D && !S.d) {
                if (rows.size() != n / S.D + 1) mc_fail("%zu entries after the origin for %zu trials; %s; table\n%s", rows.size() - 1, n, hist.c_str(), text.c_str());
                for (size_t i = 1; i < rows.size(); i++)
                    if (rows[i][1] < (double) i * S.D || rows[i][1] > n || (cols > 2 && (rows[i][2] < (double) i * S.D + pseudo || rows[i][2] > n + pseudo)))
                        mc_fail("row %zu: %g visits after %zu of %zu trials", i + 1, rows[i][1], i * S.D, n);
            }
            if (S.d && !S.D) {
                if (rows.size() > (size_t) (g->total / S.d) + 1) mc_fail("%zu entries after the origin in %g s; table\n%s", rows.size() - 1, g->total, text.c_str());
                for (size_t i = 1; i < rows.size(); i++) if (rows[i][0] < i * S.d - 1e-5) mc_fail("entry %zu was made after %g s", i, rows[i][0]);
            }
            if (rows.back()[0] > g->total + 1e-4) mc_fail("running time %g of %g; table\n%s", rows.back()[0], g->total, text.c_str());
            if (S.D == 1) {                       // the trial that finished last made the last entry
                Snap s = snap(); auto& r = rows.back();
                if (!eq(r[0], g->total)) mc_fail("last row: running time %g, expected %g; %s", r[0], g->total, hist.c_str());
                if (r[1] != n + pseudo) mc_fail("last row: %g visits, expected %zu", r[1], n);
                if (!values_ok(r, s, (long) n + pseudo, why)) mc_fail("last row: wrong %s; table\n%s", why.c_str(), text.c_str());
            }
        }
        mc_outcome((std::to_string(rows.size()) + " rows, " + hist).c_str());
        if (S.threads == 1) g->after.pop_back();
    }

    void body() {
        mc_ghost_begin(); g = new Ghost(); auto* hk = new LHooks(); auto* dr = new LDraws(); mc_ghost_end();
        H() = hk; D() = dr;
        {
            Built b = build(S.cfg);
            mc_ghost_begin(); g->root = b.root.get(); mc_ghost_end();
            shared_ptr<ThtsLogger> lg = S.base_logger ? make_shared<ThtsLogger>() : make_logger(S.cfg.algo);
            if (S.D) lg->set_trials_delta(S.D);
            if (S.d) lg->set_runtime_delta(S.d);
            auto pool = std::make_unique<ThtsPool>(b.manager, b.root, S.threads, lg);
            for (size_t i = 0; i < S.calls.size(); i++) {
                const Call& c = S.calls[i];
                if (i > 0) {
                    mc_clock_advance(7.0);
                    if (S.new_pool) { pool.reset(); pool = std::make_unique<ThtsPool>(b.manager, b.root, S.threads, lg); }
                    mc_clock_advance(5.0);
                }
                if (c.limit > 0) pool->run_trials(c.n, c.limit, c.blocking); else pool->run_trials(c.n, std::numeric_limits<double>::max(), c.blocking);
                if (!c.blocking) pool->join();
                check(*lg);
            }
        }
        H() = nullptr; D() = nullptr;
        mc_ghost_begin(); delete g; delete hk; delete dr; mc_ghost_end();
    }
    void setup(int i) { S = scens()[i]; M = fork2(); G() = &M; mc_clock(3.0, 0, 0, 0); }
    void add(const char* n, Scen s, int tier, int pb, int pbt) {
        s.name = std::string("log_") + (s.base_logger ? "base" : algo_name(s.cfg.algo)) + "_" + n;
        scens().push_back(s);
        mc_configs().push_back({s.name, s.threads > 1 ? "C20 C04 C05 C23" : "C20", tier, setup, body, (int) scens().size() - 1, pb, pbt, 0});
    }
}

int main(int argc, char** argv) {
    mc_host(1);
    for (int a = 0; a <= N_ALGO; a++) {
        Cfg b; b.algo = a == N_ALGO ? UCT : a; b.max_depth = 2; bool base = a == N_ALGO;
        auto sc = [&](int th, std::vector<Call> calls, int D, double d, int dc, bool fa = true) { return Scen{"", b, th, calls, D, d, base, false, dc, fa}; };
        add("d1", sc(1, {{4, 0, true}}, 1, 0, 2), 0, 0, 1);
        add("d2_calls", sc(1, {{3, 0, true}, {2, 0, true}}, 2, 0, 1), 0, 0, 1);
        add("time", sc(1, {{4, 0, true}}, 0, 1.0, 4, false), 0, 0, 1);
        add("mt_d1", sc(2, {{2, 0, true}}, 1, 0, 2), 0, 1, 2);
        if (a > PUCT && a != DBMENTS && a != N_ALGO) continue;
        add("d3_calls", sc(1, {{2, 0, true}, {1, 0, false}, {4, 0, true}}, 3, 0, 2, false), 0, 0, 1);
        add("d2_zero", sc(1, {{0, 0, true}, {-2, 0, true}, {5, 0, true}}, 2, 0, 2, false), 0, 0, 1);
        add("time_calls", sc(1, {{2, 0, true}, {3, 0, true}}, 0, 1.0, 4, false), 0, 0, 1);
        add("time_limit", sc(1, {{4, 2.0, true}, {2, 1.0, true}, {1, 0, true}}, 0, 1.0, 4, false), 0, 0, 1);
        add("d2_limit", sc(1, {{4, 2.0, true}, {3, 1.0, true}}, 2, 0, 4, false), 0, 0, 1);
        add("both", sc(1, {{3, 0, true}, {2, 0, true}}, 2, 1.5, 4, false), 0, 0, 1);
        add("none", sc(1, {{3, 0, true}}, 0, 0, 2, false), 0, 0, 1);
        { Scen s = sc(1, {{2, 0, true}, {3, 0, true}}, 2, 0, 2); s.new_pool = true; add("d2_pools", s, 0, 0, 1); }
        { Scen s = sc(1, {{2, 0, true}, {2, 0, true}}, 0, 0.727, 4); s.new_pool = true; add("time_pools", s, 0, 0, 1); }
        if (is_uct(b.algo) && !base) { Scen s = sc(1, {{3, 0, true}}, 1, 0, 1); s.cfg.pseudo = 2; add("pseudo", s, 0, 0, 1); }
        add("mt_d2", sc(2, {{3, 0, true}, {1, 0, true}}, 2, 0, 2, false), 0, 1, 2);
        add("mt_time", sc(2, {{3, 0, true}}, 0, 1.0, 2, false), 0, 1, 2);
        add("mt_limit", sc(2, {{3, 1.0, true}, {1, 0, true}}, 1, 0, 2, false), 0, 1, 2);
        if (a == UCT) add("mt_three", sc(3, {{3, 0, true}}, 1, 0, 1), 1, 1, 2);
        add("long", sc(1, {{4, 0, true}, {3, 0, true}}, 3, 1.0, 4, false), 1, 0, 1);
    }
    mc_host(0);
    return mc_run_main(argc, argv);
}
