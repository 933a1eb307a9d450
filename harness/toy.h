// Small table-driven decision processes over the library's own IntState / IntAction types, and managers whose random
// draws are supplied by the harness.  Used by the concurrent (mcrt) and the sequential (seq.h) harnesses.
#pragma once

#include "thts.h"
#include "thts_chance_node.h"
#include "thts_decision_node.h"
#include "thts_env.h"
#include "thts_env_context.h"
#include "thts_manager.h"
#include "thts_types.h"

#include "algorithms/est/est_chance_node.h"
#include "algorithms/est/est_decision_node.h"
#include "algorithms/ments/dbments_chance_node.h"
#include "algorithms/ments/dbments_decision_node.h"
#include "algorithms/ments/dbments_logger.h"
#include "algorithms/ments/dents/dents_chance_node.h"
#include "algorithms/ments/dents/dents_decision_node.h"
#include "algorithms/ments/dents/dents_manager.h"
#include "algorithms/ments/ments_chance_node.h"
#include "algorithms/ments/ments_decision_node.h"
#include "algorithms/ments/ments_logger.h"
#include "algorithms/ments/ments_manager.h"
#include "algorithms/ments/rents/rents_chance_node.h"
#include "algorithms/ments/rents/rents_decision_node.h"
#include "algorithms/ments/tents/tents_chance_node.h"
#include "algorithms/ments/tents/tents_decision_node.h"
#include "algorithms/uct/puct_chance_node.h"
#include "algorithms/uct/puct_decision_node.h"
#include "algorithms/uct/puct_manager.h"
#include "algorithms/uct/uct_chance_node.h"
#include "algorithms/uct/uct_decision_node.h"
#include "algorithms/uct/uct_logger.h"
#include "algorithms/uct/uct_manager.h"

#include <memory>
#include <string>
#include <vector>

namespace toy {
    using namespace thts;
    using std::shared_ptr;
    using std::make_shared;

    struct Out { int s; double p; double bonus; };              // bonus: part of the reward depending on the outcome
    struct Act { int id; double r; std::vector<Out> outs; };
    struct St {
        bool sink = false;
        double h = 0.0;
        std::vector<Act> acts;
        std::vector<double> prior;                               // same order as acts
    };
    struct Mdp {
        std::vector<St> st;
        int init = 0;
        bool collide = false;                                    // all states and all actions have the same hash
        double sign = 1.0;                                       // mirrors rewards and heuristics (C15)
        const Act* find(int s, int a) const {
            for (const Act& x : st[s].acts) if (x.id == a) return &x;
            return nullptr;
        }
    };

    inline Mdp*& G() { static Mdp* g = nullptr; return g; }

    // hooks a harness may install; called from inside the environment
    struct EnvHooks {
        virtual ~EnvHooks() = default;
        virtual void on_reward(int s, int a, int o /* -1: no outcome given */) {}
        virtual void on_heuristic(int s) {}
        virtual shared_ptr<ThtsEnvContext> make_context(int s) { return nullptr; }
        virtual void on_illegal(const char* what) {}
    };
    inline EnvHooks*& H() { static EnvHooks* h = nullptr; return h; }

    struct HashedState : public IntState { HashedState(int s) : IntState(s) {} size_t hash() const override { return 7; } };
    struct HashedAction : public IntAction { HashedAction(int a) : IntAction(a) {} size_t hash() const override { return 7; } };
    inline shared_ptr<const State> mks(int s) {
        if (G()->collide) return make_shared<const HashedState>(s);
        return make_shared<const IntState>(s);
    }
    inline shared_ptr<const Action> mka(int a) {
        if (G()->collide) return make_shared<const HashedAction>(a);
        return make_shared<const IntAction>(a);
    }

    inline int sid(const shared_ptr<const State>& s) { return std::static_pointer_cast<const IntState>(s)->state; }
    inline int aid(const shared_ptr<const Action>& a) { return std::static_pointer_cast<const IntAction>(a)->action; }
    inline int oid(const shared_ptr<const Observation>& o) {
        if (o == nullptr) return -1;
        return std::static_pointer_cast<const IntState>(std::static_pointer_cast<const State>(o))->state;
    }

    inline double heuristic_fn(shared_ptr<const State> s, shared_ptr<ThtsEnv>) {
        int i = sid(s);
        if (H()) H()->on_heuristic(i);
        return G()->sign * G()->st[i].h;
    }
    inline shared_ptr<ActionPrior> prior_fn(shared_ptr<const State> s, shared_ptr<ThtsEnv>) {
        auto p = make_shared<ActionPrior>();
        const St& st = G()->st[sid(s)];
        for (size_t i = 0; i < st.acts.size(); i++) {
            shared_ptr<const Action> a = mka(st.acts[i].id);
            (*p)[a] = st.prior[i];
        }
        return p;
    }

    class Env : public ThtsEnv {
        public:
            Env() : ThtsEnv(true) {}
            shared_ptr<const State> get_initial_state_itfc() const override {
                return mks(G()->init);
            }
            bool is_sink_state_itfc(shared_ptr<const State> s) const override { return G()->st[sid(s)].sink; }
            shared_ptr<ActionVector> get_valid_actions_itfc(shared_ptr<const State> s) const override {
                auto v = make_shared<ActionVector>();
                for (const Act& a : G()->st[sid(s)].acts) v->push_back(mka(a.id));
                return v;
            }
            shared_ptr<StateDistr> get_transition_distribution_itfc(
                shared_ptr<const State> s, shared_ptr<const Action> a) const override
            {
                auto d = make_shared<StateDistr>();
                const Act* act = G()->find(sid(s), aid(a));
                if (act == nullptr) { if (H()) H()->on_illegal("transition distribution"); return d; }
                for (const Out& o : act->outs) {
                    shared_ptr<const State> n = mks(o.s);
                    (*d)[n] = o.p;
                }
                return d;
            }
            // inverse CDF in table order with a single uniform draw
            shared_ptr<const State> sample_transition_distribution_itfc(
                shared_ptr<const State> s, shared_ptr<const Action> a, RandManager& rng) const override
            {
                const Act* act = G()->find(sid(s), aid(a));
                if (act == nullptr) {
                    if (H()) H()->on_illegal("sample transition");
                    return mks(sid(s));
                }
                if (act->outs.size() == 1) return mks(act->outs[0].s);
                double u = rng.get_rand_uniform();
                double m = 0.0;
                for (const Out& o : act->outs) {
                    m += o.p;
                    if (u < m) return mks(o.s);
                }
                return mks(act->outs.back().s);
            }
            double get_reward_itfc(
                shared_ptr<const State> s, shared_ptr<const Action> a,
                shared_ptr<const Observation> o = nullptr) const override
            {
                int si = sid(s), ai = aid(a), oi = oid(o);
                if (H()) H()->on_reward(si, ai, oi);
                const Act* act = G()->find(si, ai);
                if (act == nullptr) { if (H()) H()->on_illegal("reward"); return 0.0; }
                double r = act->r;
                if (oi >= 0) {
                    bool ok = false;
                    for (const Out& x : act->outs) if (x.s == oi) { r += x.bonus; ok = true; break; }
                    if (!ok && H()) H()->on_illegal("outcome");
                }
                return G()->sign * r;
            }
            shared_ptr<ThtsEnvContext> sample_context_itfc(shared_ptr<const State> s) const override {
                if (H()) {
                    auto c = H()->make_context(sid(s));
                    if (c) return c;
                }
                return ThtsEnv::sample_context_itfc(s);
            }
    };

    // ---- random draws ------------------------------------------------------------------------------------------
    struct Draws {
        virtual ~Draws() = default;
        virtual int draw_int(int lo, int hi) = 0;
        virtual double draw_uniform() = 0;
    };
    inline Draws*& D() { static Draws* d = nullptr; return d; }

    template <class Base, class Args>
    class ChoiceManager : public Base {
        public:
            ChoiceManager(const Args& a) : Base(a) {}
            int get_rand_int(int lo, int hi) override {
                if (!D()) return Base::get_rand_int(lo, hi);
                return D()->draw_int(lo, hi);
            }
            double get_rand_uniform() override {
                if (!D()) return Base::get_rand_uniform();
                return D()->draw_uniform();
            }
    };
    class ChoiceRand : public RandManager {
        public:
            ChoiceRand() : RandManager(1) {}
            int get_rand_int(int lo, int hi) override {
                if (!D()) return RandManager::get_rand_int(lo, hi);
                return D()->draw_int(lo, hi);
            }
            double get_rand_uniform() override {
                if (!D()) return RandManager::get_rand_uniform();
                return D()->draw_uniform();
            }
    };

    // ---- algorithms --------------------------------------------------------------------------------------------
    enum Algo { UCT, PUCT, MENTS, RENTS, TENTS, DBMENTS, DENTS, EST, N_ALGO };
    inline const char* algo_name(int a) {
        static const char* n[] = {"uct","puct","ments","rents","tents","dbments","dents","est"};
        return n[a];
    }
    inline bool is_uct(int a) { return a == UCT || a == PUCT; }

    struct Cfg {
        int algo = UCT;
        // common
        int max_depth = 1000000;
        bool mcts_mode = true, two_player = false, ttable = false;
        int tmutexes = 1, seed = 1;
        bool heuristic = true;      // false: heuristic_fn = nullptr
        bool prior = false;
        int root_timestep = 0;
        int root_state = -1;        // -1: the environment's initial state
        bool choice = true;         // false: plain manager with its own generator
        int lag = 0;                // trials overlap: 0 no, k > 0 the backup of a trial waits for k later selections, -1 pairs nested
        // uct
        double bias = 1.0, eps_uct = 0.0, power = 0.5;
        int pseudo = 0;
        bool most_visited = false;
        // ments family
        double temp = 1.0, epsilon = 0.5, root_epsilon = -1.0, max_explore = 1.0, prior_w = 0.0, default_q = 0.0;
        bool shift = false; double shift_offset = 0.0;
        TempDecayFnPtr decay = nullptr; double decay_min = 1e-6, decay_scale = 1.0, decay_root_scale = -1.0;
        int rec_threshold = 0;
        // dents
        TempDecayFnPtr vdecay = nullptr; double vtemp = 1.0, vmin = 1e-6, vscale = 1.0, vroot_scale = -1.0;
        bool use_dp = true;
    };

    struct Built {
        shared_ptr<Env> env;
        shared_ptr<ThtsManager> manager;
        shared_ptr<ThtsDNode> root;
    };

    template <class Args>
    inline void common_args(Args& a, const Cfg& c) {
        a.max_depth = c.max_depth;
        a.heuristic_fn = c.heuristic ? &heuristic_fn : nullptr;
        a.prior_fn = c.prior ? &prior_fn : nullptr;
        a.mcts_mode = c.mcts_mode;
        a.is_two_player_game = c.two_player;
        a.use_transposition_table = c.ttable;
        a.num_transposition_table_mutexes = c.tmutexes;
        a.seed = c.seed;
    }
    template <class Args>
    inline void ments_args(Args& a, const Cfg& c) {
        a.temp = c.temp;
        a.prior_policy_search_weight = c.prior_w;
        a.epsilon = c.epsilon;
        a.root_node_epsilon = c.root_epsilon;
        a.max_explore_prob = c.max_explore;
        a.temp_decay_fn = c.decay;
        a.temp_decay_min_temp = c.decay_min;
        a.temp_decay_visits_scale = c.decay_scale;
        a.temp_decay_root_node_visits_scale = c.decay_root_scale;
        a.default_q_value = c.default_q;
        a.shift_pseudo_q_values = c.shift;
        a.psuedo_q_value_offset = c.shift_offset;
        a.recommend_visit_threshold = c.rec_threshold;
        a.recommend_most_visited = c.most_visited;
    }
    template <class M, class A>
    inline shared_ptr<M> mk(const A& a, const Cfg& c) {
        if (c.choice) return make_shared<ChoiceManager<M,A>>(a);
        return make_shared<M>(a);
    }

    inline shared_ptr<ThtsManager> make_manager(shared_ptr<Env> env, const Cfg& c) {
        switch (c.algo) {
            case UCT: {
                UctManagerArgs a(env); common_args(a, c);
                a.bias = c.bias; a.heuristic_psuedo_trials = c.pseudo; a.recommend_most_visited = c.most_visited;
                a.epsilon_exploration = c.eps_uct;
                return mk<UctManager>(a, c);
            }
            case PUCT: {
                PuctManagerArgs a(env); common_args(a, c);
                a.bias = c.bias; a.heuristic_psuedo_trials = c.pseudo; a.recommend_most_visited = c.most_visited;
                a.epsilon_exploration = c.eps_uct; a.puct_power = c.power;
                return mk<PuctManager>(a, c);
            }
            case MENTS: case RENTS: case TENTS: case DBMENTS: {
                MentsManagerArgs a(env); common_args(a, c); ments_args(a, c);
                return mk<MentsManager>(a, c);
            }
            default: {
                DentsManagerArgs a(env); common_args(a, c); ments_args(a, c);
                a.value_temp_decay_fn = c.vdecay; a.value_temp_init = c.vtemp; a.value_temp_decay_min_temp = c.vmin;
                a.value_temp_decay_visits_scale = c.vscale; a.value_temp_decay_root_node_visits_scale = c.vroot_scale;
                a.use_dp_value = c.use_dp;
                return mk<DentsManager>(a, c);
            }
        }
    }
    inline shared_ptr<ThtsDNode> make_root(shared_ptr<ThtsManager> m, shared_ptr<const State> s, const Cfg& c) {
        int t = c.root_timestep;
        switch (c.algo) {
            case UCT: return make_shared<UctDNode>(std::static_pointer_cast<UctManager>(m), s, 0, t);
            case PUCT: return make_shared<PuctDNode>(std::static_pointer_cast<PuctManager>(m), s, 0, t);
            case MENTS: return make_shared<MentsDNode>(std::static_pointer_cast<MentsManager>(m), s, 0, t);
            case RENTS: return make_shared<RentsDNode>(std::static_pointer_cast<MentsManager>(m), s, 0, t);
            case TENTS: return make_shared<TentsDNode>(std::static_pointer_cast<MentsManager>(m), s, 0, t);
            case DBMENTS: return make_shared<DBMentsDNode>(std::static_pointer_cast<MentsManager>(m), s, 0, t);
            case DENTS: return make_shared<DentsDNode>(std::static_pointer_cast<DentsManager>(m), s, 0, t);
            default: return make_shared<EstDNode>(std::static_pointer_cast<DentsManager>(m), s, 0, t);
        }
    }
    inline shared_ptr<const State> root_state(const shared_ptr<Env>& env, const Cfg& c) {
        if (c.root_state < 0) return env->get_initial_state_itfc();
        return mks(c.root_state);
    }
    inline int root_id(const Cfg& c) { return c.root_state < 0 ? G()->init : c.root_state; }
    inline Built build(const Cfg& c) {
        Built b;
        b.env = make_shared<Env>();
        b.manager = make_manager(b.env, c);
        b.root = make_root(b.manager, root_state(b.env, c), c);
        return b;
    }
    inline shared_ptr<ThtsLogger> make_logger(int algo) {
        if (is_uct(algo)) return make_shared<UctLogger>();
        if (algo == MENTS || algo == RENTS || algo == TENTS) return make_shared<MentsLogger>();
        return make_shared<DBMentsLogger>();
    }

    // A pool without worker threads whose trials the harness runs itself.
    class StepPool : public ThtsPool {
        public:
            StepPool(shared_ptr<ThtsManager> m, shared_ptr<ThtsDNode> r, shared_ptr<ThtsLogger> l = nullptr) :
                ThtsPool(m, r, 0, l) {}
            void step() { run_thts_trial(0); }

            // Overlapping trials, as threads produce them: selection now, backup when due.
            int lag = 0;
            shared_ptr<const State> start;           // the root's state
            void overlapped_step() {
                if (lag == 0) { step(); return; }
                Pending p;
                p.ctx = thts_manager->thts_env->sample_context_itfc(start);
                run_selection_phase(p.nodes, p.rewards, *p.ctx);
                pending.push_back(std::move(p));
                if (lag > 0) { if ((int) pending.size() > lag) complete(0); }
                else if (pending.size() == 2) { complete(1); complete(0); }
            }
        private:
            struct Pending {
                std::vector<std::pair<shared_ptr<ThtsDNode>,shared_ptr<ThtsCNode>>> nodes;
                std::vector<double> rewards;
                shared_ptr<ThtsEnvContext> ctx;
            };
            std::vector<Pending> pending;
            void complete(size_t i) {
                Pending p = std::move(pending[i]);
                pending.erase(pending.begin() + i);
                run_backup_phase(p.nodes, p.rewards, *p.ctx);
            }
    };
}
