// One search of the real code driven by a given list of random draws, and what it shows from outside.
#pragma once
#include "ref.h"
#include "seq.h"
#include "toy.h"
#include "tree.h"

namespace world {
    using namespace thts; using namespace toy;
    using ref::Path; using ref::Step;
    using seq::Vals;

    struct Need { int n; };                       // thrown out of the library when the list of draws is used up
    struct Draw { bool uniform; int lo, hi; };

    struct ListDraws : public Draws {
        const Vals* v = nullptr; size_t pos = 0; bool active = true; std::string bad;
        int draw_int(int lo, int hi) override {
            if (hi <= lo) { bad = "a random integer was requested from an empty range"; return lo; }
            if (pos >= v->size()) throw Need{hi - lo};
            int i = (int) (*v)[pos++];
            return lo + (i < hi - lo ? i : 0);
        }
        double draw_uniform() override {
            if (pos >= v->size()) throw Need{0};
            return (*v)[pos++];
        }
    };

    // the same, but with a default value for what is missing: the library may hold locks when it draws
    struct SoftDraws : public Draws {
        const Vals* v = nullptr; size_t pos = 0; bool need = false; int n = 0; long extra = 0; std::string bad;
        int draw_int(int lo, int hi) override {
            if (hi <= lo) { bad = "a random integer was requested from an empty range"; return lo; }
            if (pos >= v->size()) { if (!need) { need = true; n = hi - lo; } return lo + (int) (extra++ % (hi - lo)); }
            int i = (int) (*v)[pos++];
            return lo + (i < hi - lo ? i : 0);
        }
        double draw_uniform() override {
            if (pos >= v->size()) { if (!need) { need = true; n = 0; } return fmod(0.5 + 0.381 * extra++, 1.0); }
            return (*v)[pos++];
        }
    };

    struct Hooks : public EnvHooks {
        std::string illegal; std::map<int,int> heur; long n_heur = 0, contexts = 0;
        std::vector<Step> steps; std::vector<int> from;
        void on_reward(int s, int a, int o) override { if (o >= 0) { steps.push_back({a, o}); from.push_back(s); } }
        void on_heuristic(int s) override { heur[s]++; n_heur++; }
        shared_ptr<ThtsEnvContext> make_context(int) override { contexts++; return nullptr; }
        void on_illegal(const char* w) override { if (illegal.empty()) illegal = w; }
    };

    // path of the running (or just finished) trial: the nodes whose visit count grew
    struct Partial { std::vector<int> el; bool root = false; std::string odd; };   // a0,o0,a1,o1,...
    // decision nodes by (level, state), for trees with shared nodes
    typedef std::map<std::pair<int,int>, const PNode*> Shared;
    inline void collect(const PNode* n, int level, int key, Shared& m) {
        if (level % 2 == 0) { if (!m.insert({{level, key}, n}).second) return; }
        for (auto& k : n->kids) collect(k.second.get(), level + 1, k.first, m);
    }
    inline Partial diff(const PNode* before, const PNode* after, bool shared) {
        Partial p;
        const PNode* b = before; const PNode* a = after;
        if (a->visits == b->visits) return p;
        p.root = true;
        if (a->visits != b->visits + 1) { p.odd = "root visited more than once"; return p; }
        Shared old; if (shared) collect(before, 0, 0, old);
        for (int level = 1; ; level++) {
            int key = 0; const PNode* nb = nullptr; const PNode* na = nullptr; int grown = 0;
            for (auto& k : a->kids) {
                const PNode* x = nullptr;
                if (shared && level % 2 == 0) { auto it = old.find({level, k.first}); if (it != old.end()) x = it->second; }
                else if (b) { auto it = b->kids.find(k.first); if (it != b->kids.end()) x = it->second.get(); }
                long before_v = x ? x->visits : 0;
                if (k.second->visits > before_v) { grown++; key = k.first; nb = x; na = k.second.get(); }
            }
            if (grown == 0) break;
            if (grown > 1) { p.odd = "more than one child visited in one trial"; break; }
            p.el.push_back(key);
            a = na; b = nb;
        }
        return p;
    }

    struct Result {
        bool need = false; int n = 0;               // wants another draw
        int trials = 0;                             // completed
        Partial part;                               // of the last (running or completed) trial
        std::unique_ptr<PNode> tree, tree_before;
        std::string text;
        Built b;
        std::string error;                          // exception of the library
        std::string odd;
        long n_heur = 0; std::map<int,int> heur; long contexts = 0;
        std::vector<Step> steps;                    // of the last trial, from the rewards collected
    };
    inline std::string print(const shared_ptr<ThtsDNode>& r) { return r->get_pretty_print_string(48); }

    // runs trials until k are complete or the draws are used up
    inline Result run(const Cfg& cfg, Mdp* mdp, const Vals& v, int k) {
        Result r;
        ListDraws dr; dr.v = &v;
        Hooks hk;
        G() = mdp; D() = &dr; H() = &hk;
        try {
            r.b = build(cfg);
            StepPool pool(r.b.manager, r.b.root);
            pool.lag = cfg.lag; pool.start = root_state(r.b.env, cfg);
            if (k == 0) { r.text = print(r.b.root); r.tree = parse_tree(r.text); }
            while (r.trials < k && !r.need) {
                if (r.trials == k - 1) r.tree_before = parse_tree(print(r.b.root));
                hk.steps.clear();
                try { pool.overlapped_step(); r.trials++; }
                catch (const Need& n) { r.need = true; r.n = n.n; }
            }
            if (k > 0) { r.text = print(r.b.root); r.tree = parse_tree(r.text); }
            if (r.tree_before) r.part = diff(r.tree_before.get(), r.tree.get(), cfg.ttable);
            else if (k > 0) { r.odd = "an earlier trial asks for more draws than before"; }
            if (k == 0) r.part = Partial();
        } catch (const std::exception& e) { r.error = e.what(); }
        D() = nullptr; H() = nullptr;
        r.n_heur = hk.n_heur; r.heur = hk.heur; r.contexts = hk.contexts; r.steps = hk.steps;
        if (r.odd.empty()) r.odd = !hk.illegal.empty() ? "the environment was asked for an impossible " + hk.illegal : !dr.bad.empty() ? dr.bad : r.part.odd;
        return r;
    }
    inline Path to_path(const std::vector<int>& el) {
        Path p; for (size_t i = 0; i + 1 < el.size(); i += 2) p.push_back({el[i], el[i+1]}); return p;
    }
    inline std::string show(const Path& p) {
        std::ostringstream o; o << "[";
        for (auto& s : p) o << " " << s.a << ">" << s.o;
        o << " ]"; return o.str();
    }
    inline std::string show(const std::vector<Path>& h) { std::string s; for (auto& p : h) s += show(p) + " "; return s; }
    inline std::string show(const Vals& v) { std::ostringstream o; o.precision(17); for (double x : v) o << x << " "; return o.str(); }

    // representative values of a uniform draw for building histories
    inline const std::vector<double>& grid() {
        static const std::vector<double> g{0.0, 0.06, 0.14, 0.22, 0.3, 0.38, 0.46, 0.54, 0.62, 0.7, 0.78, 0.86, 0.94, 1.0 - std::ldexp(1.0, -53)};
        return g;
    }

    // Enumerates all histories of up to T trials (all integer draws, uniform draws over the grid); histories that take
    // the same paths are merged.
    struct Explorer {
        seq::Run& run_; Cfg cfg; Mdp* mdp; int T;
        std::function<void(const std::vector<Path>&, const Vals&, Result&, ref::Model&)> on_state;     // after each trial
        // at the start of each decision (action: even length of the partial path, outcome: odd)
        std::function<void(const std::vector<Path>&, const Vals&, const std::vector<int>&, ref::Model&)> on_decision;
        std::unordered_set<std::string> seen;
        std::string what;

        Explorer(seq::Run& r, const Cfg& c, Mdp* m, int T, std::string what) : run_(r), cfg(c), mdp(m), T(T), what(what) {}

        std::string key(const std::vector<Path>& h, const std::vector<int>& el) {
            std::string k;
            for (auto& p : h) { for (auto& s : p) { k += (char) (s.a + 1); k += (char) (s.o + 1); } k += '\xff'; }
            k += '\xfe';
            for (int e : el) k += (char) (e + 1);
            return k;
        }
        // Long histories instead: for each of a few default sequences of draws, the history of `deep` trials it gives and
        // all histories that deviate from it in one draw (delay-bounded exploration).
        int deep = 0;
        struct LogDraws : public Draws {
            int seq = 0; long dev = -1; double val = 0; Vals log; std::vector<int> width; std::string bad;
            double u() const {
                double p = (double) log.size();
                switch (seq) {
                    case 0: return fmod(0.5 + 0.6180339887498949 * p, 1.0);
                    case 1: return fmod(0.37 + 0.7548776662466927 * p + 0.5698402909980532 * p * p, 1.0);
                    case 2: return 0.0;
                    default: return 1.0 - std::ldexp(1.0, -53);
                }
            }
            int draw_int(int lo, int hi) override {
                if (hi <= lo) { bad = "a random integer was requested from an empty range"; return lo; }
                int i = (long) log.size() == dev ? (int) val : (int) (u() * (hi - lo));
                if (i >= hi - lo) i = hi - lo - 1;
                log.push_back(i); width.push_back(hi - lo);
                return lo + i;
            }
            double draw_uniform() override {
                double x = (long) log.size() == dev ? val : u();
                log.push_back(x); width.push_back(0);
                return x;
            }
        };
        struct Base { Vals log; std::vector<int> width; std::vector<size_t> start; std::vector<Path> h; };
        Base run_deep(int seq, long dev, double val, const Base* base) {
            Base out; LogDraws dr; dr.seq = seq; dr.dev = dev; dr.val = val;
            Hooks hk; ref::Model m(cfg, mdp);
            auto on = [&]() { G() = mdp; D() = &dr; H() = &hk; };
            auto off = [&]() { D() = nullptr; H() = nullptr; };
            on();
            Built b = build(cfg);
            StepPool pool(b.manager, b.root);
            pool.lag = cfg.lag; pool.start = root_state(b.env, cfg);
            run_.exec();
            std::string before;
            for (int t = 0; t < deep; t++) {
                out.start.push_back(dr.log.size());
                bool prefix = base && (size_t) t + 1 < base->start.size() && base->start[t + 1] <= (size_t) dev;
                if (!prefix && before.empty()) { off(); before = print(b.root); on(); }
                hk.steps.clear();
                run_.current(what + "\nhistory " + show(out.h) + "\ndraws " + show(dr.log));
                Result r; r.b = b;
                try { pool.overlapped_step(); }
                catch (const std::exception& e) { r.error = e.what(); }
                off(); run_.trans();
                if (!r.error.empty()) { fatal(r, out.h, dr.log); }
                if (prefix) { out.h.push_back(base->h[t]); m.apply(base->h[t]); on(); continue; }
                r.tree_before = parse_tree(before);
                r.text = print(b.root); r.tree = parse_tree(r.text); before = r.text;
                r.part = diff(r.tree_before.get(), r.tree.get(), cfg.ttable);
                r.trials = t + 1; r.n_heur = hk.n_heur; r.heur = hk.heur; r.contexts = hk.contexts; r.steps = hk.steps;
                r.odd = !hk.illegal.empty() ? "the environment was asked for an impossible " + hk.illegal : !dr.bad.empty() ? dr.bad : r.part.odd;
                if (!r.odd.empty()) fatal(r, out.h, dr.log);
                std::vector<Path> h = out.h; h.push_back(to_path(r.part.el));
                if (base && (size_t) t < base->h.size() && base->start[t] <= (size_t) dev && (t + 1u >= base->start.size() || (size_t) dev < base->start[t + 1])
                    && key({h.back()}, {}) == key({base->h[t]}, {})) { run_.sh->pruned++; return out; }
                if (!base && on_decision && judged(t)) {
                    std::vector<int> last; bool first = true;
                    for (size_t p = out.start.back(); p < dr.log.size(); p++) {
                        Vals v(dr.log.begin(), dr.log.begin() + p);
                        Result q = run(cfg, mdp, v, t + 1); run_.exec();
                        if (!q.need || (!first && q.part.el == last)) continue;
                        first = false; last = q.part.el;
                        if (!seen.insert(key(out.h, last) + 'd').second) continue;
                        on_decision(out.h, v, last, m);
                    }
                }
                if (r.part.el.size() % 2) run_.fail("%s: a trial ended at a chance node; history %s", what.c_str(), show(h).c_str());
                std::string il = m.illegal(h.back());
                if (!il.empty()) run_.fail("%s: a trial %s; history %s draws %s\n%s", what.c_str(), il.c_str(), show(h).c_str(), show(dr.log).c_str(), r.text.c_str());
                out.h = h;
                m.apply(h.back());
                if (!seen.insert(key(h, {}) + 's').second) { run_.sh->pruned++; if (base) return out; }
                else { run_.state(); if (on_state && judged(t)) on_state(h, dr.log, r, m); }
                on();
            }
            off();
            out.log = dr.log; out.width = dr.width;
            return out;
        }
        void go_deep() {
            for (int q = 0; q < sequences; q++) {
                Base b = run_deep(q, -1, 0, nullptr);
                if (no_deviations) continue;
                for (size_t p = 0; p < b.log.size(); p++) {
                    std::vector<double> alt;
                    if (b.width[p] > 0) for (int i = 0; i < b.width[p]; i++) alt.push_back(i);
                    else alt = {0.0, 0.19, 0.41, 0.61, 0.83, 1.0 - std::ldexp(1.0, -53)};
                    for (double a : alt) if (a != b.log[p]) run_deep(q, (long) p, a, &b);
                }
            }
        }
        bool no_deviations = false;
        int sequences = 4;
        int stride = 1;         // long histories are judged after every stride-th trial only
        void set_deep(int d, bool thorough) {
            deep = (d < 0 ? -d : d) * (thorough ? 2 : 1);
            if (d < 0) { no_deviations = true; stride = 25; }
        }
        bool judged(int t) const { return stride == 1 || t < 8 || t % stride == 0; }

        void go() {
            if (deep > 0) { go_deep(); return; }
            ref::Model m(cfg, mdp);
            Result r = run(cfg, mdp, {}, 0);
            fatal(r, {}, {});
            run_.exec();
            if (on_state) { run_.state(); on_state({}, {}, r, m); }
            if (T > 0) rec({}, {}, {}, true);
        }
        void fatal(Result& r, const std::vector<Path>& h, const Vals& v) {
            if (r.error.empty() && r.odd.empty()) return;
            run_.current(what + "\nhistory " + show(h) + "\ndraws " + show(v));
            if (!r.error.empty()) run_.fail("%s: exception: %s; history %s, draws %s", what.c_str(), r.error.c_str(), show(h).c_str(), show(v).c_str());
            run_.fail("%s: %s; history %s, draws %s", what.c_str(), r.odd.c_str(), show(h).c_str(), show(v).c_str());
        }
        void rec(const std::vector<Path>& h, const Vals& v, const std::vector<int>& before, bool fresh_decision) {
            run_.current(what + "\nhistory " + show(h) + "\ndraws " + show(v));
            Result r = run(cfg, mdp, v, (int) h.size() + 1);
            run_.exec(); run_.trans();
            fatal(r, h, v);
            if (r.need) {
                bool extended = fresh_decision || r.part.el != before;
                if (extended) {
                    if (!seen.insert(key(h, r.part.el) + 'd').second) { run_.sh->pruned++; return; }
                    if (on_decision) {
                        ref::Model m(cfg, mdp); for (auto& p : h) m.apply(p);
                        on_decision(h, v, r.part.el, m);
                    }
                }
                std::vector<int> part = r.part.el; int n = r.n;
                r = Result();
                if (n > 0) for (int i = 0; i < n; i++) { Vals w = v; w.push_back(i); rec(h, w, part, false); }
                else for (double u : grid()) { Vals w = v; w.push_back(u); rec(h, w, part, false); }
                return;
            }
            if (!seen.insert(key(h, r.part.el) + 's').second) { run_.sh->pruned++; return; }
            std::vector<Path> h2 = h; h2.push_back(to_path(r.part.el));
            ref::Model m(cfg, mdp);
            for (auto& p : h) m.apply(p);
            if (r.part.el.size() % 2) run_.fail("%s: a trial ended at a chance node; history %s", what.c_str(), show(h2).c_str());
            std::string il = m.illegal(h2.back());
            if (!il.empty()) run_.fail("%s: a trial %s; history %s draws %s\n%s", what.c_str(), il.c_str(), show(h2).c_str(), show(v).c_str(), r.text.c_str());
            m.apply(h2.back());
            run_.state();
            if (on_state) on_state(h2, v, r, m);
            if ((int) h2.size() < T) { r = Result(); rec(h2, v, {}, true); }
        }
    };

    // the next element of the path (action or outcome) as a function of the draws that follow v
    inline seq::Box next_element(const Cfg& cfg, Mdp* mdp, const Vals& v, int trials, size_t len, seq::Run& rr) {
        return [=, &rr](const Vals& d) {
            Vals w = v; w.insert(w.end(), d.begin(), d.end());
            Result r = run(cfg, mdp, w, trials);
            rr.exec(); rr.trans();
            seq::Ans a;
            if (!r.error.empty()) { a.out = "exception: " + r.error; return a; }
            if (!r.odd.empty()) { a.out = r.odd; return a; }
            if (r.part.el.size() > len) { a.out = std::to_string(r.part.el[len]); return a; }
            if (!r.need) { a.out = "(end of trial)"; return a; }
            a.need = true; a.n = r.n;
            return a;
        };
    }
}
