// Concurrent search of one tree with every algorithm: races, deadlocks, conservation of visits, node identity, shape,
// values at quiescence and release of memory, over all schedules (C04 C05 C06 C07 C09 C11 C13 C23 C25).
// Trials are those of the real ThtsPool; two or three threads run them on one tree, either as the pool's own workers or
// as threads of the harness (which keeps the pool's scheduling points out of the explored space).
#include "mc_main.h"
#include "ref.h"
#include "tree.h"

#include <functional>
#include <set>
#include <thread>

using namespace thts;
using namespace toy;
using std::shared_ptr; using std::make_shared;

namespace {
    // ---- decision processes (probabilities far from the draws used) ------------------------------------------------
    // two actions of each state share their two successors
    Mdp diamond() {
        Mdp m; m.st.resize(6);
        m.st[0] = {false, 0.25, {{0, 1.0, {{1, 0.5, 0.5}, {2, 0.5, 0}}}, {1, 2.0, {{2, 0.5, 0}, {1, 0.5, 0.25}}}}, {0.4, 0.6}};
        m.st[1] = {false, 1.0, {{0, 0.0, {{3, 0.5, 0}, {4, 0.5, 0}}}, {1, 1.0, {{4, 0.5, 0}, {3, 0.5, 0}}}}, {0.5, 0.5}};
        m.st[2] = {false, -1.0, {{0, 1.0, {{4, 0.5, 0}, {3, 0.5, 0}}}, {1, 0.0, {{3, 0.5, 0}, {4, 0.5, 0}}}}, {0.5, 0.5}};
        m.st[3] = {false, 0.0, {{0, 1.0, {{5, 1.0, 0}}}, {1, -1.0, {{5, 1.0, 0}}}}, {0.3, 0.7}};
        m.st[4] = {false, 0.5, {{0, 0.0, {{5, 1.0, 0}}}, {1, 4.0, {{5, 1.0, 0}}}}, {0.8, 0.2}};
        m.st[5] = {true, 3.0, {}, {}};
        return m;
    }
    // states recur at later time steps
    Mdp loop() {
        Mdp m; m.st.resize(3);
        m.st[0] = {false, 0.5, {{0, 1.0, {{0, 0.5, 0}, {1, 0.5, 0.5}}}, {1, 0.0, {{1, 0.5, 0}, {0, 0.5, 0}}}}, {0.5, 0.5}};
        m.st[1] = {false, 2.0, {{0, 0.25, {{1, 0.5, 0}, {0, 0.5, 0}}}, {1, -1.0, {{0, 0.5, 0}, {1, 0.5, 0}}}}, {0.25, 0.75}};
        m.st[2] = {true, 0.0, {}, {}};
        return m;
    }
    // one decision, then the end
    Mdp shallow() {
        Mdp m; m.st.resize(3);
        m.st[0] = {false, 0.5, {{0, 1.0, {{1, 0.5, 0.5}, {2, 0.5, 0}}}, {1, 2.0, {{2, 0.5, 0}, {1, 0.5, 0}}}}, {0.5, 0.5}};
        m.st[1] = {true, 2.0, {}, {}};
        m.st[2] = {true, 0.0, {}, {}};
        return m;
    }

    struct Scen {
        std::string name; Cfg cfg; Mdp mdp;
        int warm;               // sequential trials first
        int threads, per;       // then this many threads with this many trials each
        bool pool;              // as workers of the pool instead of threads of the harness
        int logd;               // logging interval (0: no logger)
        int phases;             // searches one after another on the same manager, each after releasing the tree before it
        bool hold;              // keep one node of the first tree alive
        bool drop;              // release everything at the end in any order
        int digits;             // draws explored per trial: 1 action only, 2 action and outcome
        int twin = 0;           // a second tree on the same manager, alive at the same time, whose root is this much later
    };
    Scen S; Mdp M;
    std::vector<Scen>& scens() { static std::vector<Scen> v; return v; }

    // ---- what the trials did (bookkeeping of the harness) ----------------------------------------------------------
    struct Rec { int thread; std::vector<ref::Step> path; std::vector<int> from; int a = -1, o = -1, j = 0; };
    struct Ghost {
        std::vector<std::unique_ptr<Rec>> recs;
        Rec* cur[16] = {};
        std::map<int,int> heur;
        std::string illegal;
        int script = -1;                  // >= 0: draws of the next trial (warm-up)
    };
    Ghost* g;

    struct GhostScope { GhostScope() { mc_ghost_begin(); } ~GhostScope() { mc_ghost_end(); } };

    struct TDraws : public Draws {
        int digit(bool action) {
            int t = mc_self() & 15;
            mc_ghost_begin(); Rec* r = g->cur[t]; int& d = action ? r->a : r->o; int v = d; mc_ghost_end();
            if (v >= 0) return v;
            v = (!action && S.digits < 2) ? 0 : mc_choose(2, action ? "action" : "outcome");
            mc_ghost_begin(); d = v; mc_ghost_end();
            return v;
        }
        int draw_int(int lo, int hi) override {
            if (hi <= lo) mc_fail("a random integer was requested from an empty range");
            int i = digit(true);
            return lo + i % (hi - lo);
        }
        double draw_uniform() override {
            bool action = false;
            if (!is_uct(S.cfg.algo)) { mc_ghost_begin(); Rec* r = g->cur[mc_self() & 15]; action = r->j % 2 == 0; r->j++; mc_ghost_end(); }
            return digit(action) ? 0.95 : 0.05;
        }
    };
    struct THooks : public EnvHooks {
        void on_reward(int s, int a, int o) override {
            if (o < 0) return;
            GhostScope gs;
            Rec* r = g->cur[mc_self() & 15];
            if (r) { r->path.push_back({a, o}); r->from.push_back(s); }
        }
        void on_heuristic(int s) override { GhostScope gs; g->heur[s]++; }
        shared_ptr<ThtsEnvContext> make_context(int) override {
            GhostScope gs;
            auto r = std::make_unique<Rec>(); r->thread = mc_self();
            if (g->script >= 0) { r->a = g->script & 1; r->o = (g->script >> 1) & 1; }
            g->cur[mc_self() & 15] = r.get();
            g->recs.push_back(std::move(r));
            return nullptr;
        }
        void on_illegal(const char* w) override { GhostScope gs; if (g->illegal.empty()) g->illegal = w; }
    };

    std::string show(const std::vector<ref::Step>& p) { std::ostringstream o; o << "["; for (auto& s : p) o << " " << s.a << ">" << s.o; o << " ]"; return o.str(); }
    bool eq(double x, double y) { return std::isfinite(x) && std::isfinite(y) && fabs(x - y) <= 1e-5 * std::max(fabs(x), fabs(y)) + 1e-8; }

    bool speaks(const std::string& name) {
        int a = S.cfg.algo;
        bool decay = S.cfg.decay != nullptr || S.cfg.vdecay != nullptr;
        if (want("C09")) return is_uct(a) && name == "vl";
        // which trial's backup comes last is irrelevant for these without sharing
        if (want("C11")) return !S.cfg.ttable && !decay && (((a == MENTS || a == TENTS) && name == "vl") || (a == DBMENTS && name == "soft_val"));
        if (want("C13")) return (!S.cfg.ttable || !S.cfg.use_dp) && a >= DBMENTS && name == "vl";
        if (want("C14")) return name == "temp" || name == "val_temp";
        return false;
    }
    struct Walk {
        std::map<std::pair<int,int>, const ThtsDNode*> by_key; std::map<const ThtsDNode*, std::string> seen;
        const ref::Model* m; std::string hist;
        template <class N> void node(const PNode& p, const N& n, const std::string& where) {
            if (want("C06") && p.visits != n.visits) mc_fail("%ld visits at %s, expected %ld; trials %s", p.visits, where.c_str(), n.visits, hist.c_str());
            for (auto& e : m->printed(n)) {
                if (!speaks(e.first)) continue;
                auto it = p.named.find(e.first);
                if (it == p.named.end()) mc_fail("no '%s' printed at %s", e.first.c_str(), where.c_str());
                if (!eq(it->second, e.second)) mc_fail("%s at %s is %.9g, expected %.9g; trials %s", e.first.c_str(), where.c_str(), it->second, e.second, hist.c_str());
            }
            if (p.kids.size() != n.kids.size()) mc_fail("%zu children at %s, expected %zu; trials %s", p.kids.size(), where.c_str(), n.kids.size(), hist.c_str());
            for (auto& k : n.kids) if (!p.kids.count(k.first)) mc_fail("child %d missing at %s; trials %s", k.first, where.c_str(), hist.c_str());
        }
        void go(const shared_ptr<ThtsDNode>& n, const PNode& p, const ref::D& d, const std::string& where) {
            if (want("C07")) {
                auto it = seen.find(n.get());
                if (S.cfg.ttable) {
                    if (it == seen.end()) seen[n.get()] = std::to_string(d.t) + "," + std::to_string(d.s);
                    else if (it->second != std::to_string(d.t) + "," + std::to_string(d.s)) mc_fail("one node for (time,state) (%s) and (%d,%d); trials %s", it->second.c_str(), d.t, d.s, hist.c_str());
                    auto jt = by_key.find({d.t, d.s});
                    if (jt == by_key.end()) by_key[{d.t, d.s}] = n.get();
                    else if (jt->second != n.get()) mc_fail("two nodes for state %d at time %d; trials %s", d.s, d.t, hist.c_str());
                } else {
                    if (it != seen.end()) mc_fail("one node at %s and %s although the table is off; trials %s", it->second.c_str(), where.c_str(), hist.c_str());
                    seen[n.get()] = where;
                }
            }
            node(p, d, where);
            for (auto& k : d.kids) {
                shared_ptr<const Action> a = mka(k.first);
                auto cn = n->get_child_node_itfc(a);
                const PNode& pc = *p.kids.at(k.first);
                node(pc, *k.second, where + "/" + std::to_string(k.first));
                for (auto& j : k.second->kids) {
                    shared_ptr<const Observation> ob = mks(j.first);
                    go(cn->get_child_node_itfc(ob), *pc.kids.at(j.first), *j.second, where + "/" + std::to_string(k.first) + ">" + std::to_string(j.first));
                }
            }
        }
    };

    // the trials of the threads, in some order that explains them
    bool explain(const std::vector<std::vector<Rec*>>& seqs, std::vector<size_t>& pos, std::vector<Rec*>& order, std::string& why) {
        bool done = true;
        for (size_t i = 0; i < seqs.size(); i++) if (pos[i] < seqs[i].size()) done = false;
        if (done) return true;
        for (size_t i = 0; i < seqs.size(); i++) {
            if (pos[i] >= seqs[i].size()) continue;
            ref::Model m(S.cfg, &M);
            for (auto* r : order) m.apply(r->path);
            std::string w = m.illegal(seqs[i][pos[i]]->path);
            if (!w.empty()) { if (why.empty()) why = "trial " + show(seqs[i][pos[i]]->path) + " " + w; continue; }
            order.push_back(seqs[i][pos[i]]); pos[i]++;
            if (explain(seqs, pos, order, why)) return true;
            pos[i]--; order.pop_back();
        }
        return false;
    }

    void check_tree(const shared_ptr<ThtsDNode>& root, size_t expected) {
        GhostScope gs;
        if (g->recs.size() != expected) mc_fail("%zu trials ran, expected %zu", g->recs.size(), expected);
        std::string hist;
        for (auto& r : g->recs) hist += "t" + std::to_string(r->thread) + show(r->path) + " ";
        mc_outcome(hist.c_str());
        if (!g->illegal.empty() && (want("C25") || want("C26"))) mc_fail("the environment was asked for an impossible %s; trials %s", g->illegal.c_str(), hist.c_str());
        if (want("C04") || want("C05") || want("C23")) return;
        std::vector<std::vector<Rec*>> seqs; std::map<int,size_t> idx;
        std::vector<Rec*> order; std::string why;
        size_t w = 0;
        for (; w < g->recs.size() && g->recs[w]->thread == 0; w++) order.push_back(g->recs[w].get());
        for (; w < g->recs.size(); w++) {
            int t = g->recs[w]->thread;
            if (!idx.count(t)) { idx[t] = seqs.size(); seqs.push_back({}); }
            seqs[idx[t]].push_back(g->recs[w].get());
        }
        std::vector<size_t> pos(seqs.size(), 0);
        if (!explain(seqs, pos, order, why)) {
            if (want("C25")) mc_fail("no order of the trials explains the paths: %s; trials %s", why.c_str(), hist.c_str());
            mc_stop();
        }
        ref::Model m(S.cfg, &M);
        for (auto* r : order) m.apply(r->path);
        if (want("C25") && S.cfg.heuristic) {
            std::map<int,int> wanted; std::set<const ref::D*> done;
            std::function<void(const ref::D&)> cnt = [&](const ref::D& d) {
                if (!done.insert(&d).second) return;
                if (!d.sink) wanted[d.s]++;
                for (auto& k : d.kids) for (auto& j : k.second->kids) cnt(*j.second);
            };
            cnt(*m.root);
            if (wanted != g->heur) mc_fail("the heuristic was not evaluated exactly once per created node; trials %s", hist.c_str());
        }
        std::string text = root->get_pretty_print_string(12);
        auto p = parse_tree(text);
        Walk wk; wk.m = &m; wk.hist = hist;
        wk.go(root, *p, *m.root, "root");
    }
    void clear_ghost() { GhostScope gs; g->recs.clear(); g->heur.clear(); for (auto& c : g->cur) c = nullptr; }

    void search(StepPool& sp, bool last) {
        for (int i = 0; i < S.warm; i++) {
            mc_ghost_begin(); g->script = i & 3; mc_ghost_end();
            sp.step();
        }
        mc_ghost_begin(); g->script = -1; mc_ghost_end();
        if (!last) return;
        std::vector<std::thread> ts;
        for (int i = 0; i < S.threads; i++) ts.emplace_back([&sp] { for (int k = 0; k < S.per; k++) sp.step(); });
        for (auto& t : ts) t.join();
    }

    // node identity over several trees
    struct Identity {
        std::map<std::pair<int,int>, const ThtsDNode*> by_key; std::map<const ThtsDNode*, std::pair<int,int>> by_node;
        void go(const shared_ptr<ThtsDNode>& n, int s, int t, int levels, bool root) {
            if (!root) {
                auto it = by_node.find(n.get());
                bool seen = it != by_node.end();
                if (seen && !S.cfg.ttable) mc_fail("a node was shared although the table is off");
                if (seen && it->second != std::make_pair(t, s)) mc_fail("one node for (time,state) (%d,%d) and (%d,%d)", it->second.first, it->second.second, t, s);
                by_node[n.get()] = {t, s};
                if (S.cfg.ttable) {
                    auto jt = by_key.find({t, s});
                    if (jt != by_key.end() && jt->second != n.get()) mc_fail("two nodes for state %d at time %d", s, t);
                    by_key[{t, s}] = n.get();
                }
                if (seen) return;
            }
            if (levels == 0) return;
            for (auto& a : M.st[s].acts) {
                shared_ptr<const Action> ap = mka(a.id);
                if (!n->has_child_node_itfc(ap)) continue;
                auto cn = n->get_child_node_itfc(ap);
                for (auto& o : a.outs) {
                    shared_ptr<const Observation> ob = mks(o.s);
                    if (cn->has_child_node_itfc(ob)) go(cn->get_child_node_itfc(ob), o.s, t + 1, levels - 1, false);
                }
            }
        }
    };
    void twins() {
        Built b = build(S.cfg);
        Cfg c2 = S.cfg; c2.root_timestep += S.twin; c2.root_state = 1;
        auto root2 = make_root(b.manager, root_state(b.env, c2), c2);
        {
            auto pp1 = std::make_unique<StepPool>(b.manager, b.root), pp2 = std::make_unique<StepPool>(b.manager, root2); StepPool &p1 = *pp1, &p2 = *pp2;
            for (int i = 0; i < S.warm; i++) {
                mc_ghost_begin(); g->script = i & 3; mc_ghost_end();
                p1.step(); p2.step();
            }
            mc_ghost_begin(); g->script = -1; mc_ghost_end();
            std::vector<std::thread> ts;
            for (int i = 0; i < S.threads; i++) ts.emplace_back([&, i] { for (int k = 0; k < S.per; k++) (i % 2 ? p2 : p1).step(); });
            for (auto& t : ts) t.join();
        }
        if (want("C07")) {
            GhostScope gs;
            Identity id;
            id.go(b.root, root_id(S.cfg), S.cfg.root_timestep, 6, true);
            id.go(root2, 1, c2.root_timestep, 6, true);
            mc_outcome(std::to_string(id.by_node.size()).c_str());
        }
        // one of them goes first
        if (mc_choose(2, "release")) b.root.reset(); else root2.reset();
        auto& left = b.root ? b.root : root2;
        StepPool p(b.manager, left);
        mc_ghost_begin(); g->script = 0; mc_ghost_end();
        p.step();
    }

    void body() {
        mc_ghost_begin();
        g = new Ghost();
        auto* hk = new THooks(); auto* dr = new TDraws();
        mc_ghost_end();
        H() = hk; D() = S.cfg.choice ? dr : nullptr;
        if (S.twin) twins();
        else {
            Built b = build(S.cfg);
            shared_ptr<ThtsLogger> lg;
            if (S.logd) { lg = make_logger(S.cfg.algo); lg->set_trials_delta(S.logd); }
            shared_ptr<ThtsDNode> held; std::shared_ptr<ThtsPool> keep;
            for (int ph = 0; ph < S.phases; ph++) {
                bool last = ph + 1 == S.phases;              // only the last search is concurrent
                size_t n = S.warm + (last ? (size_t) S.threads * S.per : 0);
                if (ph > 0) {
                    if (S.hold) {
                        shared_ptr<const Action> a = mka(0);
                        if (b.root->has_child_node_itfc(a)) {
                            auto cn = b.root->get_child_node_itfc(a);
                            shared_ptr<const Observation> o = mks(1);
                            if (cn->has_child_node_itfc(o)) held = cn->get_child_node_itfc(o);
                        }
                    }
                    keep.reset();
                    std::weak_ptr<ThtsDNode> old = b.root;
                    b.root.reset();
                    if ((want("C23") || want("C07")) && !old.expired()) mc_fail("a released tree is kept alive");
                    clear_ghost();
                    b.root = make_root(b.manager, root_state(b.env, S.cfg), S.cfg);
                }
                if (S.pool) {
                    auto pool = make_shared<ThtsPool>(b.manager, b.root, S.threads, lg);
                    pool->run_trials((int) n);
                    keep = pool;
                } else {
                    auto sp = make_shared<StepPool>(b.manager, b.root, lg);
                    search(*sp, last);
                    keep = sp;
                }
                if (held) {
                    // the kept node is the one found again; everything else is new
                    if (want("C07")) {
                        for (int act = 0; act < 2; act++) {
                            shared_ptr<const Action> a = mka(act);
                            if (!b.root->has_child_node_itfc(a)) continue;
                            auto cn = b.root->get_child_node_itfc(a);
                            shared_ptr<const Observation> o = mks(1);
                            if (!cn->has_child_node_itfc(o)) continue;
                            bool same = cn->get_child_node_itfc(o) == held;
                            if (S.cfg.ttable && !same) mc_fail("a second node was made for a state whose node is alive");
                            if (!S.cfg.ttable && same) mc_fail("a node was shared although the table is off");
                        }
                    }
                } else check_tree(b.root, n);
            }
            if (S.drop) {
                shared_ptr<ThtsDNode> part;
                if (mc_choose(2, "keep a subtree")) {
                    for (int act = 0; act < 2 && !part; act++) for (int st = 1; st < 3 && !part; st++) {
                        shared_ptr<const Action> a = mka(act);
                        if (!b.root->has_child_node_itfc(a)) continue;
                        auto cn = b.root->get_child_node_itfc(a);
                        shared_ptr<const Observation> o = mks(st);
                        if (cn->has_child_node_itfc(o)) part = cn->get_child_node_itfc(o);
                    }
                }
                bool gone[6] = {};
                for (int i = 0; i < 6; i++) {
                    int k = mc_choose(6 - i, "release"), j = 0;
                    for (j = 0; j < 6; j++) if (!gone[j] && k-- == 0) break;
                    gone[j] = true;
                    switch (j) { case 0: keep.reset(); break; case 1: b.root.reset(); break; case 2: b.manager.reset(); break;
                                 case 3: b.env.reset(); break; case 4: lg.reset(); break; case 5: part.reset(); break; }
                }
            }
        }
        H() = nullptr; D() = nullptr;
        mc_ghost_begin(); delete g; delete hk; delete dr; mc_ghost_end();
    }
    void setup(int i) { S = scens()[i]; M = S.mdp; G() = &M; }

    std::string props_of(const Scen& s) {
        std::string p = "C04 C05 C06 C07 C23 C25";
        int a = s.cfg.algo;
        bool decay = s.cfg.decay != nullptr || s.cfg.vdecay != nullptr;
        if (is_uct(a)) p += " C09";
        if (!s.cfg.ttable && !decay && (a == MENTS || a == TENTS || a == DBMENTS)) p += " C11";
        if ((!s.cfg.ttable || !s.cfg.use_dp) && a >= DBMENTS) p += " C13";
        return p;
    }
    void add(Scen s, int tier, int pb, int pbt, const char* props = nullptr) {
        s.name = std::string("tree_") + algo_name(s.cfg.algo) + "_" + s.name;
        scens().push_back(s);
        mc_configs().push_back({s.name, props ? props : props_of(s), tier, setup, body, (int) scens().size() - 1, pb, pbt, 0});
    }
}

int main(int argc, char** argv) {
    mc_host(1);
    for (int a = 0; a < N_ALGO; a++) {
        Cfg b; b.algo = a; b.max_depth = 2;
        auto sc = [&](const char* n, Cfg c, Mdp m, int warm, int threads, int per, int digits = 2) {
            return Scen{n, c, m, warm, threads, per, false, 0, 1, false, false, digits};
        };
        { Cfg c = b; add(sc("fresh", c, diamond(), 0, 2, 1), 0, 3, 5); }
        { Cfg c = b; add(sc("warm", c, diamond(), 4, 2, 1), 0, 2, 3); }
        { Cfg c = b; c.max_depth = 1; add(sc("shallow", c, shallow(), 2, 2, 2, 1), 0, 2, 3); }
        { Cfg c = b; c.mcts_mode = false; add(sc("full", c, diamond(), 0, 2, 1), 0, 1, 3); }
        { Cfg c = b; c.ttable = true; add(sc("tfresh", c, diamond(), 0, 2, 1), 0, 3, 5); }
        { Cfg c = b; c.ttable = true; add(sc("twarm", c, diamond(), 4, 2, 1), 0, 2, 3); }
        { Cfg c = b; c.ttable = true; c.tmutexes = 2; c.mcts_mode = false; add(sc("tfull2", c, diamond(), 2, 2, 1), 0, 1, 3); }
        { Cfg c = b; c.ttable = true; c.max_depth = 2; c.tmutexes = 3; add(sc("tloop", c, loop(), 2, 2, 1), 0, 2, 3); }
        { Cfg c = b; c.ttable = true; c.max_depth = 2; c.tmutexes = 2; Mdp m = loop(); m.collide = true; add(sc("tcollide", c, m, 1, 2, 1, 1), 0, 1, 2); }
        { Cfg c = b; c.ttable = true; c.two_player = true; c.max_depth = 1; add(sc("tshared", c, diamond(), 4, 2, 2, 1), 0, 2, 3); }
        { Cfg c = b; c.ttable = true; auto s = sc("tagain", c, diamond(), 2, 2, 1); s.phases = 2; add(s, 0, 2, 3); }
        { Cfg c = b; c.ttable = true; auto s = sc("thold", c, diamond(), 4, 2, 1); s.phases = 2; s.hold = true; add(s, 0, 1, 3, "C04 C05 C07 C23"); }
        { Cfg c = b; auto s = sc("log", c, diamond(), 1, 2, 1); s.logd = 1; add(s, 0, 2, 3); }
        { Cfg c = b; c.ttable = true; auto s = sc("drop", c, diamond(), 1, 2, 1, 1); s.drop = true; s.logd = 1; add(s, 0, 0, 1, "C23"); }
        { Cfg c = b; auto s = sc("pool", c, diamond(), 1, 2, 1, 1); s.pool = true; s.logd = 1; add(s, 0, 1, 2); }
        { Cfg c = b; c.choice = false; auto s = sc("rng", c, diamond(), 1, 2, 1); add(s, 0, 2, 3, "C04 C05"); }
        { Cfg c = b; c.prior = true; c.prior_w = is_uct(a) ? 0.0 : 0.5; c.two_player = true; add(sc("prior", c, diamond(), 2, 2, 1), 0, 1, 3); }
        { Cfg c = b; c.root_state = 1; c.root_timestep = 3; add(sc("late", c, loop(), 2, 2, 1, 1), 0, 1, 3); }
        { Cfg c = b; c.root_state = 1; c.root_timestep = 3; c.ttable = true; c.mcts_mode = false; add(sc("tlate", c, loop(), 1, 2, 1, 1), 0, 1, 2); }
        for (int tw : {1, 2}) {
            Cfg c = b; c.ttable = true; c.tmutexes = tw; c.mcts_mode = false;
            auto s = sc(tw == 1 ? "ttwin1" : "ttwin2", c, loop(), 1, 2, 1, 1); s.twin = tw;
            add(s, 0, 1, 2, "C04 C05 C07 C23");
        }
        { Cfg c = b; c.mcts_mode = false; auto s = sc("twin", c, loop(), 1, 2, 1, 1); s.twin = 1; add(s, 0, 0, 1, "C04 C05 C07 C23"); }
        { Cfg c = b; add(sc("three", c, diamond(), 1, 3, 1, 1), 1, 1, 2); }
        { Cfg c = b; c.ttable = true; add(sc("tthree", c, diamond(), 4, 3, 1, 1), 1, 1, 2); }
        { Cfg c = b; add(sc("more", c, diamond(), 1, 2, 2, 1), 1, 1, 2); }
        { Cfg c = b; c.ttable = true; c.tmutexes = 2; c.mcts_mode = false; add(sc("tmore", c, diamond(), 1, 2, 2, 1), 1, 1, 2); }
        if (!is_uct(a)) {
            { Cfg c = b; c.decay = &decayed_temp_inv_sqrt; c.decay_root_scale = 2; c.vdecay = &decayed_temp_inv_log; add(sc("decay", c, diamond(), 2, 2, 1), 0, 1, 3); }
        }
        if (a == DENTS || a == EST) {
            { Cfg c = b; c.use_dp = false; add(sc("emp", c, diamond(), 2, 2, 1), 0, 1, 3); }
            { Cfg c = b; c.use_dp = false; c.ttable = true; add(sc("temp", c, diamond(), 4, 2, 1), 0, 1, 3); }
        }
        if (is_uct(a)) {
            { Cfg c = b; c.bias = 0; c.max_depth = 1; add(sc("greedy", c, shallow(), 2, 2, 2, 1), 0, 2, 3); }
            { Cfg c = b; c.bias = 0; c.ttable = true; add(sc("tgreedy", c, diamond(), 4, 2, 1), 0, 1, 3); }
            { Cfg c = b; c.pseudo = 2; c.bias = -1; c.eps_uct = 0.5; add(sc("auto", c, diamond(), 4, 2, 1), 0, 1, 3); }
        }
    }
    mc_host(0);
    return mc_run_main(argc, argv);
}
