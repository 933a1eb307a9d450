// Multi-threaded Monte-Carlo evaluation of a finished tree (C19, and C04 C23 of the evaluator): all schedules of the
// rollout threads and all draws.
#include "mc_main.h"
#include "mc_eval.h"
#include "toy.h"

#include <algorithm>
#include <functional>
#include <map>
#include <set>

using namespace thts;
using namespace toy;
using std::shared_ptr; using std::make_shared;

namespace {
    // returns are sums of distinct powers of two: a return identifies its rollout's steps
    Mdp tri() {
        Mdp m; m.st.resize(5);
        m.st[0] = {false, 1.0, {{0, 2.0, {{1, 0.5, 4.0}, {2, 0.5, 0}}}, {1, 8.0, {{2, 1.0, 0}}}}, {0.5, 0.5}};
        m.st[1] = {false, 16.0, {{0, 32.0, {{3, 1.0, 0}}}, {1, 64.0, {{4, 0.5, 128.0}, {3, 0.5, 0}}}}, {0.5, 0.5}};
        m.st[2] = {false, 0.25, {{0, 512.0, {{3, 0.5, 0}, {4, 0.5, 1024.0}}}}, {1.0}};
        m.st[3] = {true, 2048.0, {}, {}};
        m.st[4] = {false, 0.5, {{0, -8192.0, {{3, 1.0, 0}}}, {1, 4096.0, {{2, 1.0, 0}}}}, {0.5, 0.5}};
        return m;
    }
    Mdp loop() {
        Mdp m; m.st.resize(2);
        m.st[0] = {false, 0.5, {{0, 1.0, {{0, 0.5, 0}, {1, 0.5, 0.5}}}, {1, 4.0, {{1, 1.0, 0}}}}, {0.5, 0.5}};
        m.st[1] = {false, 2.0, {{0, 16.0, {{0, 1.0, 0}}}}, {1.0}};
        return m;
    }

    struct Scen {
        std::string name; int kind;          // algorithm, or N_ALGO for recording nodes
        Cfg cfg; Mdp mdp; int warm, len;
        std::vector<std::pair<int,int>> calls;     // rollouts, threads
        int free_draws;                      // explored draws per rollout; later ones are 0
        bool moved;                          // the policy was used before
    };
    Scen S; Mdp M;
    std::vector<Scen>& scens() { static std::vector<Scen> v; return v; }

    struct Roll { int thread; long ctx; int ctx_state; std::vector<std::tuple<int,int,int>> steps; int draws = 0; std::vector<std::pair<int,long>> asked; };
    struct Ghost {
        bool evaluating = false; int script = 0;
        std::vector<std::unique_ptr<Roll>> rolls; Roll* cur[16] = {};
        long next_ctx = 1; std::map<long,int> live; std::string odd;
    };
    Ghost* g;
    struct GhostScope { GhostScope() { mc_ghost_begin(); } ~GhostScope() { mc_ghost_end(); } };

    struct ECtx : public ThtsEnvContext {
        long id;
        ECtx(long id) : id(id) {}
        ~ECtx() override { long i = id; GhostScope gs; g->live.erase(i); }
    };
    long cid(ThtsEnvContext& c) { auto* r = dynamic_cast<ECtx*>(&c); return r ? r->id : -2; }

    struct EDraws : public Draws {
        int pick(int n) {
            mc_ghost_begin();
            bool ev = g->evaluating; Roll* r = g->cur[mc_self() & 15]; int s = g->script;
            bool free = ev && r && r->draws < S.free_draws;
            if (r && ev) r->draws++;
            mc_ghost_end();
            if (!ev) return s % n;
            if (!free || n < 2) return 0;
            return mc_choose(n, "draw");
        }
        int draw_int(int lo, int hi) override { if (hi <= lo) mc_fail("a random integer was requested from an empty range"); return lo + pick(hi - lo); }
        double draw_uniform() override { return pick(2) ? 0.95 : 0.05; }
    };
    struct EHooks : public EnvHooks {
        void on_reward(int s, int a, int o) override {
            GhostScope gs;
            if (!g->evaluating) return;
            Roll* r = g->cur[mc_self() & 15];
            if (!r) { g->odd = "a step outside of any rollout"; return; }
            r->steps.push_back({s, a, o});
        }
        shared_ptr<ThtsEnvContext> make_context(int s) override {
            long id;
            {
                GhostScope gs;
                if (!g->evaluating) return nullptr;
                auto r = std::make_unique<Roll>(); r->thread = mc_self(); r->ctx = id = g->next_ctx++; r->ctx_state = s;
                g->cur[mc_self() & 15] = r.get(); g->rolls.push_back(std::move(r)); g->live[id] = 1;
            }
            return make_shared<ECtx>(id);
        }
        void on_illegal(const char* w) override { GhostScope gs; if (g->odd.empty()) g->odd = std::string("the environment was asked for an impossible ") + w; }
    };

    // nodes that record the context they are asked with
    class RC : public ThtsCNode {
        public:
            RC(shared_ptr<ThtsManager> m, shared_ptr<const State> s, shared_ptr<const Action> a, int d, int t, shared_ptr<const ThtsDNode> p) : ThtsCNode(m, s, a, d, t, p) {}
            shared_ptr<const Observation> sample_observation_itfc(ThtsEnvContext&) override {
                const Act* a = G()->find(sid(state), aid(action));
                shared_ptr<const State> s = mks(a->outs[D()->draw_int(0, (int) a->outs.size())].s);
                create_child_node_itfc(s, s);
                return s;
            }
            void backup_itfc(const std::vector<double>&, const std::vector<double>&, const double, const double, ThtsEnvContext&) override {}
        protected:
            shared_ptr<ThtsDNode> create_child_node_helper_itfc(shared_ptr<const Observation> o, shared_ptr<const State> s) const override;
            std::string get_pretty_print_val() const override { return "0"; }
    };
    class RD : public ThtsDNode {
        public:
            RD(shared_ptr<ThtsManager> m, shared_ptr<const State> s, int d, int t, shared_ptr<const ThtsCNode> p = nullptr) : ThtsDNode(m, s, d, t, p) {}
            shared_ptr<const Action> select_action_itfc(ThtsEnvContext&) override {
                const St& st = G()->st[sid(state)];
                shared_ptr<const Action> a = mka(st.acts[D()->draw_int(0, (int) st.acts.size())].id);
                create_child_node_itfc(a);
                return a;
            }
            shared_ptr<const Action> recommend_action_itfc(ThtsEnvContext& c) const override {
                long i = cid(c); int s = sid(state);
                { GhostScope gs; if (g->evaluating) { Roll* r = g->cur[mc_self() & 15]; if (r) r->asked.push_back({s, i}); } }
                const St& st = G()->st[s];
                return mka(st.acts[(decision_depth + get_num_visits()) % st.acts.size()].id);
            }
            void backup_itfc(const std::vector<double>&, const std::vector<double>&, const double, const double, ThtsEnvContext&) override {}
        protected:
            shared_ptr<ThtsCNode> create_child_node_helper_itfc(shared_ptr<const Action> a) const override {
                return make_shared<RC>(thts_manager, state, a, decision_depth, decision_timestep, shared_from_this());
            }
            std::string get_pretty_print_val() const override { return "0"; }
    };
    shared_ptr<ThtsDNode> RC::create_child_node_helper_itfc(shared_ptr<const Observation>, shared_ptr<const State> s) const {
        return make_shared<RD>(thts_manager, s, decision_depth + 1, decision_timestep + 1, shared_from_this());
    }

    double reward(int s, int a, int o) {
        const Act* x = M.find(s, a); double r = x->r;
        for (auto& y : x->outs) if (y.s == o) r += y.bonus;
        return r;
    }
    // which actions a node recommends, over its random draws
    std::set<int> recommended(const ThtsDNode& n) {
        std::set<int> s; ThtsEnvContext ctx;
        for (int i = 0; i < 6; i++) { mc_ghost_begin(); g->script = i; mc_ghost_end(); s.insert(aid(n.recommend_action_itfc(ctx))); }
        return s;
    }

    void check(const shared_ptr<ThtsDNode>& root, size_t expected, MCEvaluator& ev) {
        if (g->rolls.size() != expected) mc_fail("%zu rollouts ran, %zu were requested", g->rolls.size(), expected);
        std::string out; std::vector<double> rets;
        for (auto& rp : g->rolls) {
            Roll& r = *rp;
            std::string d = "rollout:";
            for (auto& [s, a, o] : r.steps) d += " " + std::to_string(s) + ":" + std::to_string(a) + ">" + std::to_string(o);
            out += d + "; ";
            if (r.ctx_state != M.init) mc_fail("%s: context sampled for state %d", d.c_str(), r.ctx_state);
            int cur = M.init; shared_ptr<ThtsDNode> n = root; double ret = 0; size_t k = 0;
            for (auto& [s, a, o] : r.steps) {
                if (s != cur) mc_fail("%s: step from state %d while the rollout is in state %d", d.c_str(), s, cur);
                if (M.st[cur].sink) mc_fail("%s continues past a sink", d.c_str());
                const Act* act = M.find(s, a); if (!act) mc_fail("%s: illegal action", d.c_str());
                bool ok = false; for (auto& x : act->outs) if (x.s == o && x.p > 0) ok = true;
                if (!ok) mc_fail("%s: impossible outcome", d.c_str());
                if (n) {
                    auto rs = recommended(*n);
                    if (!rs.count(a)) mc_fail("%s: action %d is not what the tree recommends there", d.c_str(), a);
                    if (S.kind == N_ALGO) {
                        if (k >= r.asked.size()) mc_fail("%s: the tree was not asked for step %zu", d.c_str(), k);
                        if (r.asked[k].first != s) mc_fail("%s: step %zu used the recommendation of the node of state %d", d.c_str(), k, r.asked[k].first);
                        if (r.asked[k].second != r.ctx) mc_fail("%s: step %zu used context %ld instead of %ld", d.c_str(), k, r.asked[k].second, r.ctx);
                    }
                    k++;
                    shared_ptr<const Action> ap = mka(a);
                    shared_ptr<const Observation> op = mks(o);
                    shared_ptr<ThtsDNode> nx;
                    if (n->has_child_node_itfc(ap)) { auto c = n->get_child_node_itfc(ap); if (c->has_child_node_itfc(op)) nx = c->get_child_node_itfc(op); }
                    n = nx;
                }
                ret += reward(s, a, o); cur = o;
            }
            if (S.kind == N_ALGO && r.asked.size() != k) mc_fail("%s: the tree was asked %zu times for %zu steps", d.c_str(), r.asked.size(), k);
            if ((int) r.steps.size() > S.len) mc_fail("%s: more than %d steps", d.c_str(), S.len);
            if ((int) r.steps.size() < S.len && !M.st[cur].sink) mc_fail("%s: stopped early", d.c_str());
            rets.push_back(ret);
        }
        if (!g->odd.empty()) mc_fail("%s", g->odd.c_str());
        if (!g->live.empty()) mc_fail("%zu contexts outlive their rollouts", g->live.size());
        if (!rets.empty()) {
            double mean = 0, var = 0;
            for (double x : rets) mean += x / rets.size();
            for (double x : rets) var += (x - mean) * (x - mean);
            double m = ev.get_mean_return();
            if (!(fabs(m - mean) <= 1e-9 * (1 + fabs(mean)))) mc_fail("mean %.12g reported, the returns' mean is %.12g; %s", m, mean, out.c_str());
            if (rets.size() >= 2) {
                double sd = sqrt(var / (rets.size() - 1.0)), s = ev.get_stddev_return();
                if (!(fabs(s - sd) <= 1e-7 * (1 + sd))) mc_fail("standard deviation %.12g reported, expected %.12g; %s", s, sd, out.c_str());
            }
        }
        std::sort(rets.begin(), rets.end());
        mc_outcome(out.c_str());
    }

    void body() {
        mc_ghost_begin(); g = new Ghost(); auto* hk = new EHooks(); auto* dr = new EDraws(); mc_ghost_end();
        H() = hk; D() = dr;
        {
            Built b;
            if (S.kind < N_ALGO) b = build(S.cfg);
            else {
                b.env = make_shared<Env>();
                ThtsManagerArgs a(b.env); common_args(a, S.cfg);
                b.manager = make_shared<ThtsManager>(a);
                b.root = make_shared<RD>(b.manager, b.env->get_initial_state_itfc(), 0, 0);
            }
            {
                StepPool sp(b.manager, b.root);
                for (int i = 0; i < S.warm; i++) { mc_ghost_begin(); g->script = i; mc_ghost_end(); sp.step(); }
            }
            std::string before = b.root->get_pretty_print_string(12);
            {
                // on the heap: the race monitor watches heap and globals
                auto rndp = std::make_unique<ChoiceRand>(); ChoiceRand& rnd = *rndp;
                auto polp = std::make_unique<EvalPolicy>(b.root, b.env, rnd); EvalPolicy& pol = *polp;
                if (S.moved) {
                    ThtsEnvContext ctx;
                    pol.update_step(mka(0), mks(1));
                    (void) pol.get_action(mks(1), ctx);
                }
                auto evp = std::make_unique<MCEvaluator>(b.env, pol, S.len, rnd); MCEvaluator& ev = *evp;
                if (!S.cfg.choice) D() = nullptr;
                mc_ghost_begin(); g->evaluating = true; mc_ghost_end();
                size_t n = 0;
                for (auto& c : S.calls) { ev.run_rollouts(c.first, c.second); n += c.first; }
                mc_ghost_begin(); g->evaluating = false; mc_ghost_end();
                D() = dr;
                if (want("C19")) { GhostScope gs; check(b.root, n, ev); }
            }
            if (want("C19") && b.root->get_pretty_print_string(12) != before) mc_fail("evaluating changed the tree");
        }
        H() = nullptr; D() = nullptr;
        mc_ghost_begin(); delete g; delete hk; delete dr; mc_ghost_end();
    }
    void setup(int i) { S = scens()[i]; M = S.mdp; G() = &M; }
    void add(Scen s, int tier, int pb, int pbt) {
        s.name = std::string("evalmt_") + (s.kind < N_ALGO ? algo_name(s.kind) : "rec") + "_" + s.name;
        s.cfg.algo = s.kind < N_ALGO ? s.kind : UCT;
        scens().push_back(s);
        mc_configs().push_back({s.name, "C19 C04 C23", tier, setup, body, (int) scens().size() - 1, pb, pbt, 0});
    }
}

int main(int argc, char** argv) {
    mc_host(1);
    for (int a = 0; a <= N_ALGO; a++) {
        Cfg b; b.max_depth = 3;
        auto sc = [&](const char* n, Cfg c, Mdp m, int warm, int len, std::vector<std::pair<int,int>> calls, int fd, bool moved = false) {
            return Scen{n, a, c, m, warm, len, calls, fd, moved};
        };
        add(sc("two", b, tri(), 4, 2, {{2, 2}}, 3), 0, -1, -1);
        add(sc("three", b, tri(), 4, 2, {{3, 2}}, 2), 0, -1, -1);
        if (a != N_ALGO && a != UCT && a != MENTS && a != DENTS) continue;
        add(sc("fresh", b, tri(), 0, 3, {{2, 2}}, 3), 0, -1, -1);
        { Cfg c = b; c.ttable = true; c.mcts_mode = false; add(sc("table", c, tri(), 4, 3, {{2, 2}}, 3), 0, -1, -1); }
        add(sc("more_threads", b, tri(), 3, 2, {{1, 2}}, 4), 0, -1, -1);
        add(sc("one_thread", b, tri(), 3, 3, {{3, 1}}, 4), 0, -1, -1);
        add(sc("again", b, tri(), 3, 2, {{2, 1}, {2, 2}}, 2), 0, -1, -1);
        add(sc("moved", b, tri(), 3, 2, {{2, 2}}, 2, true), 0, -1, -1);
        add(sc("zero_len", b, tri(), 3, 0, {{2, 2}}, 2), 0, -1, -1);
        add(sc("loop", b, loop(), 4, 4, {{2, 2}}, 3), 0, -1, -1);
        { Cfg c = b; c.choice = false; add(sc("rng", c, tri(), 4, 2, {{3, 2}}, 2), 0, -1, -1); }
        add(sc("three_threads", b, tri(), 4, 2, {{3, 3}}, 1), 1, -1, -1);
        add(sc("four", b, tri(), 4, 3, {{4, 2}}, 2), 1, -1, -1);
    }
    mc_host(0);
    return mc_run_main(argc, argv);
}
