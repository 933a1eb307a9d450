// Values at every moment of a concurrent search (C09 C11 C13): each backup of a node has to leave the value that the
// definition gives for some state its children were in while the backup ran.  The nodes are the library's, wrapped so
// that the harness sees the beginning and end of every visit and backup; values are read through the nodes' own
// printing function.
#include "mc_main.h"
#include "ref.h"

#include <functional>
#include <map>
#include <set>
#include <thread>

using namespace thts;
using namespace toy;
using std::shared_ptr; using std::make_shared;

namespace {
    // everything costs something: a value that is still at its initial zero is better than any real one
    Mdp costs(double sign) {
        Mdp m; m.st.resize(6); m.sign = sign;
        m.st[0] = {false, -2.0, {{0, -1.0, {{1, 0.5, 0}, {2, 0.5, 0}}}, {1, -2.0, {{2, 0.5, 0}, {1, 0.5, 0}}}}, {0.4, 0.6}};
        m.st[1] = {false, -3.0, {{0, -0.5, {{3, 0.5, 0}, {4, 0.5, 0}}}, {1, -1.5, {{4, 0.5, 0}, {3, 0.5, 0}}}}, {0.5, 0.5}};
        m.st[2] = {false, -1.0, {{0, -2.5, {{4, 0.5, 0}, {3, 0.5, 0}}}, {1, -0.25, {{3, 0.5, 0}, {4, 0.5, 0}}}}, {0.5, 0.5}};
        m.st[3] = {false, -4.0, {{0, -1.0, {{5, 1.0, 0}}}, {1, -3.0, {{5, 1.0, 0}}}}, {0.3, 0.7}};
        m.st[4] = {false, -0.5, {{0, -2.0, {{5, 1.0, 0}}}, {1, -0.75, {{5, 1.0, 0}}}}, {0.8, 0.2}};
        m.st[5] = {true, -7.0, {}, {}};
        return m;
    }

    struct Scen { std::string name; Cfg cfg; Mdp mdp; int warm, threads, per, digits; };
    Scen S; Mdp M;
    std::vector<Scen>& scens() { static std::vector<Scen> v; return v; }
    struct GhostScope { GhostScope() { mc_ghost_begin(); } ~GhostScope() { mc_ghost_end(); } };

    // ---- what the harness knows about a node ------------------------------------------------------------------------
    struct Ver { long seq; double soft, dp; long nb, dpn; };
    struct GN {
        bool decision; ref::D d; ref::C c; std::vector<Ver> vers;
        long through = 0;                 // chance node: when its parent last began a backup of a trial through it
        void push(long seq) {
            if (decision) vers.push_back({seq, d.soft, d.dp, d.nb, d.dpn});
            else vers.push_back({seq, c.soft, c.dp, c.nb, c.dpn});
        }
    };
    struct Rec { int a = -1, o = -1, j = 0; };
    struct Ghost {
        std::map<const void*, std::unique_ptr<GN>> nodes; long seq = 0;
        std::map<int, Rec> cur; std::map<int, GN*> last; int script = -1; long checked = 0; std::string text;
        std::unique_ptr<ref::Model> model;
    };
    Ghost* g;

    struct TDraws : public Draws {
        int digit(bool action) {
            int t = mc_self() & 15;
            mc_ghost_begin(); Rec& r = g->cur[t]; int& d = action ? r.a : r.o; int v = d; mc_ghost_end();
            if (v >= 0) return v;
            v = (!action && S.digits < 2) ? 0 : mc_choose(2, action ? "action" : "outcome");
            mc_ghost_begin(); d = v; mc_ghost_end();
            return v;
        }
        int draw_int(int lo, int hi) override {
            if (hi <= lo) mc_fail("a random integer was requested from an empty range");
            return lo + digit(true) % (hi - lo);
        }
        double draw_uniform() override {
            bool action = false;
            if (!is_uct(S.cfg.algo)) { mc_ghost_begin(); Rec& r = g->cur[mc_self() & 15]; action = r.j % 2 == 0; r.j++; mc_ghost_end(); }
            return digit(action) ? 0.95 : 0.05;
        }
    };
    struct THooks : public EnvHooks {
        shared_ptr<ThtsEnvContext> make_context(int) override {
            GhostScope gs; Rec r;
            if (g->script >= 0) { r.a = g->script & 1; r.o = (g->script >> 1) & 1; }
            g->cur[mc_self() & 15] = r;
            return nullptr;
        }
    };

    // printed value: "x" or "x(name:y,...)"
    std::map<std::string,double> parse(const std::string& s) {
        std::map<std::string,double> m; const char* p = s.c_str(); char* e;
        m["vl"] = strtod(p, &e); if (e == p) mc_fail("unreadable value '%s'", s.c_str());
        p = e; if (*p == '(') p++;
        while (*p && *p != ')') {
            std::string k; while (*p && *p != ':') k += *p++;
            if (!*p) break;
            p++; m[k] = strtod(p, &e); p = e; if (*p == ',') p++;
        }
        return m;
    }
    bool eq(double x, double y) { return std::isfinite(x) && std::isfinite(y) && fabs(x - y) <= 2e-4 * std::max(1.0, std::max(fabs(x), fabs(y))); }
    // the names this run is about
    std::vector<std::string> names() {
        int a = S.cfg.algo;
        if (want("C09")) return {"vl"};
        if (want("C11")) return {a == DBMENTS ? "soft_val" : "vl"};
        if (want("C13")) return {"vl"};
        return {};
    }
    bool uses_children() { return !is_uct(S.cfg.algo) && !(want("C13") && (S.cfg.algo == DENTS || S.cfg.algo == EST) && !S.cfg.use_dp); }

    void adopt(GN& n, const std::map<std::string,double>& v) {
        int a = S.cfg.algo;
        double& soft = n.decision ? n.d.soft : n.c.soft; double& dp = n.decision ? n.d.dp : n.c.dp;
        if (a == MENTS || a == TENTS || a == RENTS) soft = v.at("vl");
        else if (a >= DBMENTS) { dp = v.at("vl"); if (v.count("soft_val")) soft = v.at("soft_val"); }
    }

    typedef std::vector<std::pair<int, GN*>> Kids;
    // all combinations of what the children may have been between s0 and now
    bool explained(GN& n, const Kids& kids, long s0, double ret, const std::map<std::string,double>& got, const std::string& name, std::string& tried) {
        ref::Model& m = *g->model;
        std::vector<size_t> lo(kids.size()), hi(kids.size()), at;
        for (size_t i = 0; i < kids.size(); i++) {
            auto& v = kids[i].second->vers; size_t l = 0;
            long from = s0;
            // TENTS looks at the action of the trial only and remembers the others
            if (S.cfg.algo == TENTS && n.decision && g->last[mc_self() & 15] != kids[i].second) from = kids[i].second->through;
            while (l + 1 < v.size() && v[l+1].seq <= from) l++;
            lo[i] = l; hi[i] = v.size() - 1;
        }
        if (!uses_children()) { hi = lo; }
        at = lo;
        while (true) {
            double expect;
            if (n.decision) {
                ref::D d = n.d; d.kids.clear();
                for (size_t i = 0; i < kids.size(); i++) {
                    auto c = std::make_shared<ref::C>(kids[i].second->c); Ver& v = kids[i].second->vers[at[i]];
                    c->soft = v.soft; c->dp = v.dp; c->nb = v.nb; c->dpn = v.dpn; c->kids.clear();
                    d.kids[kids[i].first] = c;
                }
                m.backup(d, ret, nullptr);
                expect = m.printed(d).at(name);
            } else {
                ref::C c = n.c; c.kids.clear();
                for (size_t i = 0; i < kids.size(); i++) {
                    auto d = std::make_shared<ref::D>(kids[i].second->d); Ver& v = kids[i].second->vers[at[i]];
                    d->soft = v.soft; d->dp = v.dp; d->nb = v.nb; d->dpn = v.dpn; d->kids.clear();
                    c.kids[kids[i].first] = d;
                }
                m.backup(c, ret);
                expect = m.printed(c).at(name);
            }
            if (eq(got.at(name), expect)) return true;
            if (tried.size() < 200) { tried += tried.empty() ? "" : " or "; tried += std::to_string(expect); }
            size_t i = 0;
            for (; i < kids.size(); i++) { if (at[i] < hi[i]) { at[i]++; break; } at[i] = lo[i]; }
            if (i == kids.size()) return false;
        }
    }
    void after_backup(const void* p, const Kids& kids, long s0, double ret, const std::string& text, const char* kind) {
        GN& n = *g->nodes.at(p);
        auto got = parse(text);
        for (auto& nm : names()) {
            std::string tried; g->checked++;
            if (!got.count(nm)) mc_fail("no '%s' printed", nm.c_str());
            if (!explained(n, kids, s0, ret, got, nm, tried)) {
                std::string ks;
                for (auto& k : kids) { auto& v = k.second->vers.back(); char b[160]; snprintf(b, sizeof b, " %d:(value %g/%g, %ld/%ld backups)", k.first, v.soft, v.dp, v.nb, v.dpn); ks += b; }
                mc_fail("after a backup of the %s node of state %d (depth %d) %s is %g, but its children allow %s only; children now:%s", kind,
                    n.decision ? n.d.s : n.c.s, n.decision ? n.d.depth : n.c.depth, nm.c_str(), got[nm], tried.c_str(), ks.c_str());
            }
        }
        if (n.decision) { n.d.rets.push_back(ret); n.d.nb++; n.d.dpn++; if (GN* c = g->last[mc_self() & 15]) c->through = s0; }
        else { g->last[mc_self() & 15] = &n; n.c.rets.push_back(ret); n.c.nb++; n.c.dpn++; }
        adopt(n, got);
        n.push(++g->seq);
        g->text += kind[0]; g->text += text; g->text += ' ';
    }

    template <class DN, class CN, class MG> class LC;
    template <class DN, class CN, class MG>
    class LD : public DN {
        public:
            int s_, depth_, t_;
            LD(shared_ptr<MG> m, shared_ptr<const State> s, int depth, int t, shared_ptr<const CN> p = nullptr) : DN(m, s, depth, t, p), s_(sid(s)), depth_(depth), t_(t) {
                GhostScope gs;
                auto n = std::make_unique<GN>(); n->decision = true;
                n->d = *g->model->make(s_, depth, t);
                n->push(++g->seq);
                g->nodes[this] = std::move(n);
            }
            void visit_itfc(ThtsEnvContext& c) override {
                DN::visit_itfc(c);
                GhostScope gs; GN& n = *g->nodes.at(this); g->model->visit(n.d); n.push(++g->seq);
            }
            void backup_itfc(const std::vector<double>& b, const std::vector<double>& a, const double ra, const double r, ThtsEnvContext& c) override {
                long s0; Kids kids;
                {
                    GhostScope gs; s0 = g->seq;
                    for (auto& x : M.st[s_].acts) {
                        shared_ptr<const Action> ap = mka(x.id);
                        if (this->has_child_node_itfc(ap)) kids.push_back({x.id, g->nodes.at(this->get_child_node_itfc(ap).get()).get()});
                    }
                }
                DN::backup_itfc(b, a, ra, r, c);
                GhostScope gs;
                after_backup(this, kids, s0, ra, this->get_pretty_print_val(), "decision");
            }
        public:
            shared_ptr<ThtsCNode> create_child_node_helper_itfc(shared_ptr<const Action> a) const override {
                return make_shared<LC<DN,CN,MG>>(std::static_pointer_cast<MG>(this->thts_manager), this->state, a, depth_, t_,
                    std::static_pointer_cast<const DN>(this->shared_from_this()));
            }
    };
    template <class DN, class CN, class MG>
    class LC : public CN {
        public:
            int s_, a_, depth_, t_;
            LC(shared_ptr<MG> m, shared_ptr<const State> s, shared_ptr<const Action> a, int depth, int t, shared_ptr<const DN> p) :
                CN(m, s, a, depth, t, p), s_(sid(s)), a_(aid(a)), depth_(depth), t_(t)
            {
                GhostScope gs;
                auto n = std::make_unique<GN>(); n->decision = false;
                ref::D parent; parent.s = s_; parent.depth = depth; parent.t = t;
                n->c = *g->model->make_c(parent, a_);
                n->push(++g->seq);
                g->nodes[static_cast<const ThtsCNode*>(this)] = std::move(n);
            }
            void visit_itfc(ThtsEnvContext& c) override {
                CN::visit_itfc(c);
                GhostScope gs; GN& n = *g->nodes.at(static_cast<const ThtsCNode*>(this)); n.c.visits++; n.push(++g->seq);
            }
            void backup_itfc(const std::vector<double>& b, const std::vector<double>& a, const double ra, const double r, ThtsEnvContext& c) override {
                long s0; Kids kids;
                {
                    GhostScope gs; s0 = g->seq;
                    for (auto& x : M.find(s_, a_)->outs) {
                        shared_ptr<const Observation> ob = mks(x.s);
                        if (this->has_child_node_itfc(ob)) kids.push_back({x.s, g->nodes.at(this->get_child_node_itfc(ob).get()).get()});
                    }
                }
                CN::backup_itfc(b, a, ra, r, c);
                GhostScope gs;
                after_backup(static_cast<const ThtsCNode*>(this), kids, s0, ra, this->get_pretty_print_val(), "chance");
            }
        public:
            shared_ptr<ThtsDNode> create_child_node_helper_itfc(shared_ptr<const Observation> o, shared_ptr<const State>) const override {
                shared_ptr<const State> s = std::static_pointer_cast<const State>(o);
                return make_shared<LD<DN,CN,MG>>(std::static_pointer_cast<MG>(this->thts_manager), s, depth_ + 1, t_ + 1,
                    std::static_pointer_cast<const CN>(this->shared_from_this()));
            }
    };
    template <class DN, class CN, class MG>
    shared_ptr<ThtsDNode> mk(shared_ptr<ThtsManager> m, shared_ptr<const State> s) {
        return make_shared<LD<DN,CN,MG>>(std::static_pointer_cast<MG>(m), s, 0, S.cfg.root_timestep);
    }
    shared_ptr<ThtsDNode> lin_root(shared_ptr<ThtsManager> m, shared_ptr<const State> s) {
        switch (S.cfg.algo) {
            case UCT: return mk<UctDNode,UctCNode,UctManager>(m, s);
            case PUCT: return mk<PuctDNode,PuctCNode,PuctManager>(m, s);
            case MENTS: return mk<MentsDNode,MentsCNode,MentsManager>(m, s);
            case TENTS: return mk<TentsDNode,TentsCNode,MentsManager>(m, s);
            case DBMENTS: return mk<DBMentsDNode,DBMentsCNode,MentsManager>(m, s);
            case DENTS: return mk<DentsDNode,DentsCNode,DentsManager>(m, s);
            default: return mk<EstDNode,EstCNode,DentsManager>(m, s);
        }
    }

    void body() {
        mc_ghost_begin();
        g = new Ghost(); g->model = std::make_unique<ref::Model>(S.cfg, &M);
        auto* hk = new THooks(); auto* dr = new TDraws();
        mc_ghost_end();
        H() = hk; D() = dr;
        {
            auto env = make_shared<Env>();
            auto m = make_manager(env, S.cfg);
            auto root = lin_root(m, root_state(env, S.cfg));
            auto spp = std::make_unique<StepPool>(m, root); StepPool& sp = *spp;
            for (int i = 0; i < S.warm; i++) {
                mc_ghost_begin(); g->script = i & 3; mc_ghost_end();
                sp.step();
            }
            mc_ghost_begin(); g->script = -1; mc_ghost_end();
            std::vector<std::thread> ts;
            for (int i = 0; i < S.threads; i++) ts.emplace_back([&sp] { for (int k = 0; k < S.per; k++) sp.step(); });
            for (auto& t : ts) t.join();
        }
        mc_ghost_begin(); mc_outcome(g->text.c_str()); mc_ghost_end();
        H() = nullptr; D() = nullptr;
        mc_ghost_begin(); delete g; delete hk; delete dr; mc_ghost_end();
    }
    void setup(int i) { S = scens()[i]; M = S.mdp; G() = &M; }
    void add(Scen s, int tier, int pb, int pbt) {
        int a = s.cfg.algo;
        s.name = std::string("lin_") + algo_name(a) + "_" + s.name;
        scens().push_back(s);
        std::string p;
        if (is_uct(a)) p += "C09 ";
        if (a == MENTS || a == TENTS || a == DBMENTS) p += "C11 ";
        if (a >= DBMENTS) p += "C13 ";
        mc_configs().push_back({s.name, p, tier, setup, body, (int) scens().size() - 1, pb, pbt, 0});
    }
}

int main(int argc, char** argv) {
    mc_host(1);
    for (int a = 0; a < N_ALGO; a++) {
        if (a == RENTS) continue;                    // its values depend on the policies of the parents on the way
        Cfg b; b.algo = a; b.max_depth = 2; b.default_q = 0.0;
        auto sc = [&](const char* n, Cfg c, Mdp m, int warm, int threads, int per, int digits = 2) { return Scen{n, c, m, warm, threads, per, digits}; };
        { Cfg c = b; add(sc("fresh", c, costs(1), 0, 2, 1), 0, 2, 4); }
        { Cfg c = b; add(sc("warm", c, costs(1), 2, 2, 1), 0, 2, 3); }
        { Cfg c = b; c.ttable = true; add(sc("table", c, costs(1), 2, 2, 1), 0, 2, 3); }
        { Cfg c = b; c.ttable = true; c.tmutexes = 2; c.mcts_mode = false; add(sc("tfull", c, costs(1), 1, 2, 1), 0, 1, 3); }
        { Cfg c = b; c.two_player = true; c.max_depth = 1; add(sc("two", c, costs(1), 1, 2, 2, 1), 0, 1, 3); }
        { Cfg c = b; c.two_player = true; c.root_timestep = 1; add(sc("opp", c, costs(-1), 1, 2, 1), 0, 1, 3); }
        { Cfg c = b; c.max_depth = 1; add(sc("leaf", c, costs(1), 1, 2, 2), 0, 1, 3); }
        { Cfg c = b; c.ttable = true; add(sc("three", c, costs(1), 2, 3, 1, 1), 1, 1, 2); }
        if (is_uct(a)) { Cfg c = b; c.pseudo = 2; c.ttable = true; add(sc("pseudo", c, costs(1), 1, 2, 1), 0, 1, 3); }
        else { Cfg c = b; c.decay = &decayed_temp_inv_sqrt; c.decay_root_scale = 3; c.vdecay = &decayed_temp_inv_log; add(sc("decay", c, costs(1), 1, 2, 1), 0, 1, 3); }
        if (a == DENTS || a == EST) {
            { Cfg c = b; c.use_dp = false; add(sc("emp", c, costs(1), 1, 2, 1), 0, 1, 3); }
            { Cfg c = b; c.use_dp = false; c.ttable = true; c.two_player = true; add(sc("temp", c, costs(1), 2, 2, 1), 0, 1, 3); }
        }
    }
    mc_host(0);
    return mc_run_main(argc, argv);
}
