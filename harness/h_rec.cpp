// Recording nodes under the real pool: what exactly a trial passes to visits, selections, samples and backups
// (C08 C24, and the pool's part of C05 C06 C25).  Every action and outcome is an explored choice.
#include "mc_main.h"
#include "toy.h"

#include <functional>
#include <map>
#include <set>
#include <thread>

using namespace thts;
using namespace toy;
using std::shared_ptr; using std::make_shared;

namespace {
    // rewards and heuristics are distinct powers of two, so that every sum identifies its summands
    Mdp tri() {
        Mdp m; m.st.resize(5);
        m.st[0] = {false, 1.0, {{0, 2.0, {{1, 0.5, 4.0}, {2, 0.5, 0}}}, {1, 8.0, {{2, 1.0, 0}}}}, {}};
        m.st[1] = {false, 16.0, {{0, 32.0, {{3, 1.0, 0}}}, {1, 64.0, {{4, 0.5, 128.0}, {3, 0.5, 0}}}}, {}};
        m.st[2] = {false, 256.0, {{0, 512.0, {{3, 0.5, 0}, {4, 0.5, 1024.0}}}}, {}};
        m.st[3] = {true, 2048.0, {}, {}};
        m.st[4] = {false, 4096.0, {{0, 8192.0, {{3, 1.0, 0}}}}, {}};
        return m;
    }
    Mdp line() {
        Mdp m; m.st.resize(4);
        for (int i = 0; i < 3; i++) m.st[i] = {false, 1.0 * (1 << (2 * i)), {{0, -0.5 * (1 << (2 * i)), {{i + 1, 1.0, 0}}}}, {}};
        m.st[3] = {true, 64.0, {}, {}};
        return m;
    }

    struct Scen { std::string name; Cfg cfg; Mdp mdp; int warm, threads, per; bool pool; int logd; };
    Scen S; Mdp M;
    std::vector<Scen>& scens() { static std::vector<Scen> v; return v; }

    enum Kind { VD, SEL, VC, SMP, BD, BC };
    struct Ev { Kind k; const void* node; int s, a, o, depth, t; long ctx; std::vector<double> before, after; double ra, r; };
    struct Trial { int thread; long ctx; int ctx_state; std::vector<Ev> ev; std::vector<std::tuple<int,int,int>> rew; bool over = false; };
    struct Ghost {
        std::vector<std::unique_ptr<Trial>> trials; Trial* cur[16] = {};
        long next_ctx = 1; std::map<long,int> live; int script = -1; std::string stray;
        std::map<const void*, std::string> made;     // nodes created and their place
    };
    Ghost* g;
    struct GhostScope { GhostScope() { mc_ghost_begin(); } ~GhostScope() { mc_ghost_end(); } };

    struct RCtx : public ThtsEnvContext {
        long id;
        RCtx(long id) : id(id) {}
        ~RCtx() override { long i = id; GhostScope gs; g->live.erase(i); id = -1; }
    };
    long cid(ThtsEnvContext& c) { auto* r = dynamic_cast<RCtx*>(&c); return r ? r->id : -2; }

    void log(Ev&& e) {
        GhostScope gs;
        Trial* t = g->cur[mc_self() & 15];
        if (!t) { if (g->stray.empty()) g->stray = "a node was used by a thread that sampled no context"; return; }
        t->ev.push_back(std::move(e));
    }
    int pick(int n, const char* what) {
        if (n < 2) return 0;
        int s; mc_ghost_begin(); s = g->script; mc_ghost_end();
        if (s >= 0) return s % n;
        return mc_choose(n, what);
    }

    class RD; 
    class RC : public ThtsCNode {
        public:
            RC(shared_ptr<ThtsManager> m, shared_ptr<const State> s, shared_ptr<const Action> a, int d, int t, shared_ptr<const ThtsDNode> p) :
                ThtsCNode(m, s, a, d, t, p), dd(d), tt(t) {}
            int dd, tt;
            void visit_itfc(ThtsEnvContext& c) override { long i = cid(c); log({VC, this, sid(state), aid(action), -1, dd, tt, i}); ThtsCNode::visit_itfc(c); }
            shared_ptr<const Observation> sample_observation_itfc(ThtsEnvContext& c) override;
            void backup_itfc(const std::vector<double>& b, const std::vector<double>& a, const double ra, const double r, ThtsEnvContext& c) override {
                long i = cid(c); backups++;
                Ev e{BC, this, sid(state), aid(action), -1, dd, tt, i};
                mc_ghost_begin(); e.before = b; e.after = a; mc_ghost_end();
                e.ra = ra; e.r = r; log(std::move(e));
            }
            int backups = 0;
        protected:
            shared_ptr<ThtsDNode> create_child_node_helper_itfc(shared_ptr<const Observation> o, shared_ptr<const State> s) const override;
            std::string get_pretty_print_val() const override { return "0"; }
    };
    class RD : public ThtsDNode {
        public:
            RD(shared_ptr<ThtsManager> m, shared_ptr<const State> s, int d, int t, shared_ptr<const ThtsCNode> p = nullptr) :
                ThtsDNode(m, s, d, t, p), dd(d), tt(t) {}
            int dd, tt;
            void visit_itfc(ThtsEnvContext& c) override { long i = cid(c); log({VD, this, sid(state), -1, -1, dd, tt, i}); ThtsDNode::visit_itfc(c); }
            shared_ptr<const Action> select_action_itfc(ThtsEnvContext& c) override {
                long i = cid(c);
                const St& st = G()->st[sid(state)];
                int k = pick((int) st.acts.size(), "action");
                shared_ptr<const Action> a = mka(st.acts[k].id);
                create_child_node_itfc(a);
                log({SEL, this, sid(state), st.acts[k].id, -1, dd, tt, i});
                return a;
            }
            shared_ptr<const Action> recommend_action_itfc(ThtsEnvContext&) const override { return mka(0); }
            void backup_itfc(const std::vector<double>& b, const std::vector<double>& a, const double ra, const double r, ThtsEnvContext& c) override {
                long i = cid(c); backups++;
                Ev e{BD, this, sid(state), -1, -1, dd, tt, i};
                mc_ghost_begin(); e.before = b; e.after = a; mc_ghost_end();
                e.ra = ra; e.r = r; log(std::move(e));
            }
            int backups = 0;
        protected:
            shared_ptr<ThtsCNode> create_child_node_helper_itfc(shared_ptr<const Action> a) const override {
                return make_shared<RC>(thts_manager, state, a, decision_depth, decision_timestep, shared_from_this());
            }
            std::string get_pretty_print_val() const override { return "0"; }
    };
    shared_ptr<const Observation> RC::sample_observation_itfc(ThtsEnvContext& c) {
        long i = cid(c);
        const Act* a = G()->find(sid(state), aid(action));
        int k = pick((int) a->outs.size(), "outcome");
        shared_ptr<const State> s = mks(a->outs[k].s);
        shared_ptr<const Observation> o = s;
        create_child_node_itfc(o, s);
        log({SMP, this, sid(state), aid(action), a->outs[k].s, dd, tt, i});
        return o;
    }
    shared_ptr<ThtsDNode> RC::create_child_node_helper_itfc(shared_ptr<const Observation>, shared_ptr<const State> s) const {
        return make_shared<RD>(thts_manager, s, decision_depth + 1, decision_timestep + 1, shared_from_this());
    }

    struct RHooks : public EnvHooks {
        void on_reward(int s, int a, int o) override { GhostScope gs; Trial* t = g->cur[mc_self() & 15]; if (t) t->rew.push_back({s, a, o}); }
        shared_ptr<ThtsEnvContext> make_context(int s) override {
            long id;
            mc_ghost_begin();
            id = g->next_ctx++;
            auto t = std::make_unique<Trial>(); t->thread = mc_self(); t->ctx = id; t->ctx_state = s;
            g->cur[mc_self() & 15] = t.get(); g->trials.push_back(std::move(t)); g->live[id] = 1;
            mc_ghost_end();
            return make_shared<RCtx>(id);
        }
    };

    std::string show(const std::vector<double>& v) { std::ostringstream o; o << "["; for (double x : v) o << " " << x; o << " ]"; return o.str(); }
    const char* kind_name(Kind k) { static const char* n[] = {"visit", "select", "chance visit", "sample", "backup", "chance backup"}; return n[k]; }
    double reward(int s, int a, int o) {
        const Act* x = M.find(s, a); double r = x->r;
        for (auto& y : x->outs) if (y.s == o) r += y.bonus;
        return r;
    }

    void check(size_t expected) {
        GhostScope gs;
        if (g->trials.size() != expected) mc_fail("%zu contexts were sampled for %zu trials", g->trials.size(), expected);
        if (!g->stray.empty()) mc_fail("%s", g->stray.c_str());
        std::string out;
        for (auto& tp : g->trials) {
            Trial& t = *tp;
            std::string desc = "trial of T" + std::to_string(t.thread) + ":";
            // the path
            std::vector<const Ev*> ds, cs, sm; std::vector<const Ev*> back;
            bool in_backup = false;
            for (auto& e : t.ev) {
                if (e.k == SMP) desc += " " + std::to_string(e.a) + ">" + std::to_string(e.o);
                if (want("C24") && e.ctx != t.ctx) mc_fail("%s %s received context %ld instead of %ld", desc.c_str(), kind_name(e.k), e.ctx, t.ctx);
                if (e.k == BD || e.k == BC) { back.push_back(&e); in_backup = true; continue; }
                if (in_backup && want("C08")) mc_fail("%s %s after a backup of the same trial", desc.c_str(), kind_name(e.k));
                if (e.k == VD) ds.push_back(&e);
                if (e.k == VC) cs.push_back(&e);
                if (e.k == SMP) sm.push_back(&e);
            }
            out += desc + "; ";
            if (want("C24") && t.ctx_state != root_id(S.cfg)) mc_fail("%s context sampled for state %d instead of the root state", desc.c_str(), t.ctx_state);
            size_t n = cs.size();
            if (ds.size() != n + 1 || sm.size() != n) mc_fail("%s %zu decision visits, %zu chance visits, %zu samples", desc.c_str(), ds.size(), n, sm.size());
            if (want("C25") || want("C06")) {
                // the visited nodes form a path of successors
                std::set<const void*> nodes;
                for (size_t i = 0; i <= n; i++) {
                    if (ds[i]->depth != (int) i || ds[i]->t != (int) i + S.cfg.root_timestep) mc_fail("%s node %zu has depth %d and time %d", desc.c_str(), i, ds[i]->depth, ds[i]->t);
                    if (!nodes.insert(ds[i]->node).second) mc_fail("%s a node was visited twice", desc.c_str());
                    if (i < n && !nodes.insert(cs[i]->node).second) mc_fail("%s a node was visited twice", desc.c_str());
                    if (i < n && (cs[i]->s != ds[i]->s || sm[i]->node != cs[i]->node || ds[i+1]->s != sm[i]->o)) mc_fail("%s step %zu does not follow the sampled outcome", desc.c_str(), i);
                    if (i < n && (M.st[ds[i]->s].sink || (int) i >= S.cfg.max_depth)) mc_fail("%s continues past a leaf", desc.c_str());
                }
            }
            if (want("C08")) {
                std::vector<double> r;
                for (size_t i = 0; i < n; i++) r.push_back(reward(cs[i]->s, cs[i]->a, sm[i]->o));
                double h = S.cfg.heuristic && !M.st[ds[n]->s].sink ? M.st[ds[n]->s].h : 0.0, tot = h;
                for (double x : r) tot += x;
                if (back.size() != 2 * n) mc_fail("%s %zu backups for %zu steps", desc.c_str(), back.size(), n);
                std::vector<double> after{h}; double ra = h;
                for (size_t k = 0; k < n; k++) {
                    size_t i = n - 1 - k;
                    after.push_back(r[i]); ra += r[i];
                    std::vector<double> before(r.begin(), r.begin() + i);
                    for (int half = 0; half < 2; half++) {
                        const Ev& e = *back[2 * k + half];
                        const void* node = half == 0 ? cs[i]->node : ds[i]->node;
                        if (e.node != node) mc_fail("%s backup %zu is of another node (expected the %s node of step %zu)", desc.c_str(), 2 * k + half, half ? "decision" : "chance", i);
                        if (e.before != before) mc_fail("%s step %zu: earlier rewards %s, expected %s", desc.c_str(), i, show(e.before).c_str(), show(before).c_str());
                        if (e.after != after) mc_fail("%s step %zu: later rewards %s, expected %s", desc.c_str(), i, show(e.after).c_str(), show(after).c_str());
                        if (e.ra != ra) mc_fail("%s step %zu: return-to-go %g, expected %g", desc.c_str(), i, e.ra, ra);
                        if (e.r != tot) mc_fail("%s step %zu: total return %g, expected %g", desc.c_str(), i, e.r, tot);
                    }
                }
            }
        }
        if (want("C24") && !g->live.empty()) mc_fail("%zu contexts outlive their trials", g->live.size());
        mc_outcome(out.c_str());
    }

    void body() {
        mc_ghost_begin(); g = new Ghost(); auto* hk = new RHooks(); mc_ghost_end();
        H() = hk; D() = nullptr;
        {
            auto env = make_shared<Env>();
            ThtsManagerArgs a(env); common_args(a, S.cfg);
            auto m = make_shared<ThtsManager>(a);
            auto root = make_shared<RD>(m, root_state(env, S.cfg), 0, S.cfg.root_timestep);
            size_t n = S.warm + (size_t) S.threads * S.per;
            shared_ptr<ThtsLogger> lg; if (S.logd) { lg = make_shared<ThtsLogger>(); lg->set_trials_delta(S.logd); }
            if (S.pool) {
                auto pool = std::make_unique<ThtsPool>(m, root, S.threads, lg);
                pool->run_trials((int) n);
                check(n);
            } else {
                auto spp = std::make_unique<StepPool>(m, root, lg); StepPool& sp = *spp;
                for (int i = 0; i < S.warm; i++) { mc_ghost_begin(); g->script = i; mc_ghost_end(); sp.step(); }
                mc_ghost_begin(); g->script = -1; mc_ghost_end();
                if (S.threads == 1) for (int k = 0; k < S.per; k++) sp.step();
                else {
                    std::vector<std::thread> ts;
                    for (int i = 0; i < S.threads; i++) ts.emplace_back([&sp] { for (int k = 0; k < S.per; k++) sp.step(); });
                    for (auto& t : ts) t.join();
                }
                check(n);
            }
        }
        H() = nullptr;
        mc_ghost_begin(); delete g; delete hk; mc_ghost_end();
    }
    void setup(int i) { S = scens()[i]; M = S.mdp; G() = &M; }
    void add(Scen s, int tier, int pb, int pbt) {
        s.name = "rec_" + s.name;
        scens().push_back(s);
        mc_configs().push_back({s.name, "C04 C05 C06 C08 C23 C24 C25", tier, setup, body, (int) scens().size() - 1, pb, pbt, 0});
    }
}

int main(int argc, char** argv) {
    mc_host(1);
    Cfg b; b.max_depth = 10;
    auto put = [&](const char* n, Cfg c, Mdp m, int warm, int threads, int per, int tier, int pb, int pbt, bool pool = false, int logd = 0) {
        add(Scen{n, c, m, warm, threads, per, pool, logd}, tier, pb, pbt);
    };
    // sequential: every history
    put("seq", b, tri(), 0, 1, 4, 0, -1, -1);
    { Cfg c = b; c.mcts_mode = false; put("seq_full", c, tri(), 0, 1, 3, 0, -1, -1); }
    { Cfg c = b; c.mcts_mode = false; put("seq_line", c, line(), 0, 1, 4, 0, -1, -1); }
    put("seq_line_mcts", b, line(), 0, 1, 6, 0, -1, -1);
    { Cfg c = b; c.heuristic = false; c.mcts_mode = false; c.root_timestep = 3; put("seq_noheur", c, tri(), 0, 1, 2, 0, -1, -1); }
    { Cfg c = b; c.max_depth = 2; c.mcts_mode = false; put("seq_depth2", c, tri(), 0, 1, 3, 0, -1, -1); }
    { Cfg c = b; c.max_depth = 0; put("seq_depth0", c, tri(), 0, 1, 3, 0, -1, -1); }
    { Cfg c = b; c.ttable = true; put("seq_table", c, tri(), 0, 1, 4, 0, -1, -1); }
    { Cfg c = b; put("seq_log", c, tri(), 0, 1, 3, 0, -1, -1, false, 1); }
    { Cfg c = b; c.root_state = 1; c.root_timestep = 3; c.max_depth = 2; put("seq_root", c, tri(), 0, 1, 3, 0, -1, -1); }
    { Cfg c = b; c.root_state = 1; c.root_timestep = 5; c.mcts_mode = false; c.ttable = true; put("seq_root_table", c, tri(), 0, 1, 2, 0, -1, -1, false, 1); }
    // concurrent
    { Cfg c = b; c.root_state = 2; c.root_timestep = 2; c.mcts_mode = false; put("two_root", c, tri(), 0, 2, 1, 0, 2, 3); }
    { Cfg c = b; c.root_state = 1; put("pool_root", c, tri(), 0, 2, 1, 0, 1, 2, true); }
    put("two", b, tri(), 1, 2, 1, 0, 3, 5);
    { Cfg c = b; c.mcts_mode = false; put("two_full", c, tri(), 0, 2, 1, 0, 2, 4); }
    { Cfg c = b; c.mcts_mode = false; c.ttable = true; c.tmutexes = 2; put("two_table", c, tri(), 0, 2, 1, 0, 2, 4); }
    put("two_two", b, tri(), 1, 2, 2, 0, 1, 3);
    put("two_line", b, line(), 1, 2, 2, 0, 3, 4);
    put("two_log", b, tri(), 1, 2, 1, 0, 2, 4, false, 1);
    put("pool1", b, tri(), 0, 1, 3, 0, 3, -1, true);
    put("pool2", b, tri(), 0, 2, 1, 0, 2, 3, true);
    put("pool2_line", b, line(), 1, 2, 1, 0, 2, 3, true, 1);
    put("three", b, line(), 1, 3, 1, 0, 2, 3);
    put("three_tri", b, tri(), 1, 3, 1, 1, 1, 2);
    { Cfg c = b; put("seq_deep", c, tri(), 0, 1, 6, 1, -1, -1); }
    mc_host(0);
    return mc_run_main(argc, argv);
}
