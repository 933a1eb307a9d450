// Sequential histories of every algorithm against the reference model (C06 C09 C10 C11 C12 C13 C14 C15 C16 C25 C26).
#include "world.h"
#include "mc_eval.h"
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

using namespace world;
using seq::Run; using seq::Dist; using seq::Measure;

namespace {
    // ---- decision processes -------------------------------------------------------------------------------------
    Mdp basic() {
        Mdp m; m.st.resize(5);
        m.st[0] = {false, 0.5, {{0, 1.0, {{1, 0.5, 0.25}, {2, 0.5, 0}}}, {1, 0.0, {{2, 1.0, 0}}}, {2, -1.0, {{3, 1.0, 0}}}}, {0.2, 0.5, 0.3}};
        m.st[1] = {false, -1.0, {{0, 2.0, {{3, 1.0, 0}}}, {1, -1.0, {{4, 0.25, -0.5}, {3, 0.75, 0}}}}, {0.0, 1.0}};
        m.st[2] = {false, 2.0, {{0, 0.5, {{4, 1.0, 0}}}, {5, 3.0, {{3, 1.0, 0}}}}, {0.1, 0.9}};
        m.st[3] = {true, 7.0, {}, {}};
        m.st[4] = {false, 1.5, {{0, -2.0, {{3, 1.0, 0}}}, {1, 1.0, {{3, 1.0, 0}}}}, {0.5, 0.5}};
        return m;
    }
    // two layers whose states are reached through several actions
    Mdp diamond() {
        Mdp m; m.st.resize(6);
        m.st[0] = {false, 0.0, {{0, 1.0, {{1, 0.5, 0}, {2, 0.5, 0}}}, {1, 2.0, {{2, 0.25, 0}, {1, 0.75, 0}}}}, {0.4, 0.6}};
        m.st[1] = {false, 1.0, {{0, 0.0, {{3, 1.0, 0}}}, {1, 1.0, {{4, 1.0, 0}}}}, {0.5, 0.5}};
        m.st[2] = {false, -1.0, {{0, 1.0, {{4, 1.0, 0}}}, {1, 0.0, {{3, 1.0, 0}}}}, {0.5, 0.5}};
        m.st[3] = {false, 0.0, {{0, 1.0, {{5, 1.0, 0}}}, {1, -1.0, {{5, 1.0, 0}}}}, {0.3, 0.7}};
        m.st[4] = {false, 0.5, {{0, 0.0, {{5, 1.0, 0}}}, {1, 4.0, {{5, 1.0, 0}}}}, {0.8, 0.2}};
        m.st[5] = {true, 3.0, {}, {}};
        return m;
    }
    // no differences: everything ties
    Mdp flat(double r) {
        Mdp m; m.st.resize(3);
        m.st[0] = {false, r, {{0, r, {{1, 1.0, 0}}}, {1, r, {{1, 1.0, 0}}}, {2, r, {{1, 1.0, 0}}}}, {1.0/3, 1.0/3, 1.0/3}};
        m.st[1] = {false, r, {{0, r, {{2, 1.0, 0}}}, {1, r, {{2, 1.0, 0}}}}, {0.5, 0.5}};
        m.st[2] = {true, 0.0, {}, {}};
        return m;
    }
    // rewards far apart
    Mdp steep(double r) {
        Mdp m; m.st.resize(4);
        m.st[0] = {false, 0.0, {{0, r, {{1, 1.0, 0}}}, {1, -r, {{2, 1.0, 0}}}, {2, 0.0, {{1, 0.5, 0}, {2, 0.5, 0}}}}, {1e-40, 1e40, 1.0}};
        m.st[1] = {false, r, {{0, -r, {{3, 1.0, 0}}}, {1, 0.0, {{3, 1.0, 0}}}}, {0.0, 1.0}};
        m.st[2] = {false, -r, {{0, r, {{3, 1.0, 0}}}, {1, 0.5 * r, {{3, 1.0, 0}}}}, {0.5, 0.5}};
        m.st[3] = {true, 0.0, {}, {}};
        return m;
    }
    // outcome probabilities of every kind, including zero and one split finely
    Mdp outcomes() {
        Mdp m; m.st.resize(6);
        m.st[0] = {false, 0.0, {{0, 0.0, {{1, 0.125, 1}, {2, 0.0, 0}, {3, 0.625, 2}, {4, 0.25, 3}}}, {1, 1.0, {{4, 1.0, 0}}}, {2, 0.0, {{1, 0.1, 0}, {2, 0.2, 1}, {3, 0.3, 0}, {4, 0.4, 0}}}}, {0.3, 0.3, 0.4}};
        m.st[1] = {false, 1.0, {{0, 0.0, {{5, 1.0, 0}}}}, {1.0}};
        m.st[2] = {false, -1.0, {{0, 0.0, {{5, 1.0, 0}}}}, {1.0}};
        m.st[3] = {false, 0.0, {{0, 0.0, {{5, 0.5, 0}, {4, 0.5, 1}}}}, {1.0}};
        m.st[4] = {false, 0.5, {{0, 0.0, {{5, 1.0, 0}}}}, {1.0}};
        m.st[5] = {true, 0.0, {}, {}};
        return m;
    }
    // one action everywhere, long chain
    Mdp chain() {
        Mdp m; m.st.resize(5);
        for (int i = 0; i < 4; i++) m.st[i] = {false, 0.25 * i, {{0, 1.0 + i, {{i + 1, 1.0, 0.5}}}}, {1.0}};
        m.st[4] = {true, 9.0, {}, {}};
        return m;
    }

    // all values far below zero; the best action is the one that would be abandoned first
    Mdp losses(double r) {
        Mdp m; m.st.resize(4);
        m.st[0] = {false, -r, {{0, -0.5 * r, {{1, 1.0, 0}}}, {1, -0.8 * r, {{1, 1.0, 0}}}, {2, -0.6 * r, {{3, 1.0, 0}}}}, {0.3, 0.3, 0.4}};
        m.st[1] = {false, -0.25 * r, {{0, -0.5 * r, {{2, 1.0, 0}}}, {1, -0.75 * r, {{2, 1.0, 0}}}}, {0.5, 0.5}};
        m.st[2] = {false, -0.5 * r, {{0, -r, {{3, 1.0, 0}}}}, {1.0}};
        m.st[3] = {true, 0.0, {}, {}};
        return m;
    }
    // one action, uneven outcomes
    Mdp coin() {
        Mdp m; m.st.resize(4);
        m.st[0] = {false, 0.0, {{0, 1.0, {{1, 0.9, 0}, {2, 0.1, 2}}}}, {1.0}};
        m.st[1] = {false, 1.0, {{0, 0.0, {{3, 0.75, 1}, {2, 0.25, 0}}}}, {1.0}};
        m.st[2] = {false, -1.0, {{0, 0.0, {{3, 1.0, 0}}}}, {1.0}};
        m.st[3] = {true, 0.0, {}, {}};
        return m;
    }
    // time without end: the same two states again and again
    Mdp ring() {
        Mdp m; m.st.resize(2);
        m.st[0] = {false, 0.5, {{0, 1.0, {{1, 1.0, 0}}}, {1, -0.5, {{0, 1.0, 0}}}}, {0.5, 0.5}};
        m.st[1] = {false, -1.5, {{0, 0.25, {{0, 1.0, 0}}}, {1, 2.0, {{1, 0.5, 0}, {0, 0.5, 1}}}}, {0.25, 0.75}};
        return m;
    }

    // large rewards that cancel: the averages are small
    Mdp cancel() {
        Mdp m; m.st.resize(4); const double r = 1e9;
        m.st[0] = {false, 0.25, {{0, 0.0, {{1, 0.5, r + 1.5}, {2, 0.5, 2.25 - r}}}}, {1.0}};
        m.st[1] = {false, 0.5, {{0, -r, {{3, 0.5, 2 * r}, {2, 0.5, 3.0}}}}, {1.0}};
        m.st[2] = {false, -0.75, {{0, 1.0, {{3, 1.0, 0}}}}, {1.0}};
        m.st[3] = {true, 0.0, {}, {}};
        return m;
    }

    // many actions, many outcomes, a long game
    Mdp wide() {
        Mdp m; m.st.resize(12);
        for (int i = 0; i < 11; i++) {
            St s; s.sink = false; s.h = 0.5 * ((i * 7) % 5) - 1.0;
            int na = i == 0 ? 7 : 1 + (i % 3);
            for (int a = 0; a < na; a++) {
                Act x; x.id = (a * 5) % 7; x.r = 0.25 * ((i + 3 * a) % 9) - 1.0;
                if (i < 6) { int no = 1 + (a + i) % 3; for (int o = 0; o < no; o++) x.outs.push_back({6 + (i + a + 2 * o) % 5, no == 3 ? (o == 0 ? 0.5 : 0.25) : 1.0 / no, 0.5 * o}); }
                else x.outs.push_back({11, 1.0, 0.0});
                s.acts.push_back(x);
            }
            if (i == 0) for (auto& x : s.acts) for (auto& o : x.outs) o.s = o.s - 5;
            double t = 0; for (int a = 0; a < na; a++) t += a + 1; for (int a = 0; a < na; a++) s.prior.push_back((a + 1) / t);
            m.st[i] = s;
        }
        m.st[11] = {true, 0.0, {}, {}};
        return m;
    }

    // more than twenty decisions in a row
    Mdp tall() {
        Mdp m; m.st.resize(26);
        for (int i = 0; i < 24; i++) {
            St s; s.sink = false; s.h = 0.25 * ((i * 5) % 7) - 0.5;
            s.acts.push_back({0, 0.5 * ((i * 3) % 5) - 1.0, {{i + 1, 1.0, 0}}});
            s.acts.push_back({1 + i % 2, 0.25 * (i % 4), {{i + 1, 0.625, 0.5}, {i + 2, 0.375, -0.25}}});
            s.prior = {0.375, 0.625};
            m.st[i] = s;
        }
        m.st[24] = {true, 5.0, {}, {}}; m.st[25] = {true, -5.0, {}, {}};
        return m;
    }
    // a dozen actions and a dozen unequal outcomes
    Mdp fan() {
        Mdp m; m.st.resize(15);
        St s; s.sink = false; s.h = 0.5; double t = 0;
        for (int a = 0; a < 12; a++) {
            Act x; x.id = (a * 7) % 12 + (a > 5 ? 20 : 0); x.r = 0.5 * ((a * 5) % 12) - 2.0;
            double tot = 0; for (int o = 0; o <= a; o++) tot += 1 + (o * 3) % 5;
            for (int o = 0; o <= a; o++) x.outs.push_back({1 + (a + o) % 12, (1 + (o * 3) % 5) / tot, 0.125 * o});
            s.acts.push_back(x); s.prior.push_back(1 + a % 4); t += 1 + a % 4;
        }
        for (double& p : s.prior) p /= t;
        m.st[0] = s;
        for (int i = 1; i <= 12; i++) { m.st[i] = {false, 0.25 * i - 1.0, {{0, 0.5 * (i % 3), {{13, 0.5, 0}, {14, 0.5, 1.0}}}}, {1.0}}; if (i % 4 == 0) m.st[i].acts.push_back({3, -1.0, {{13, 1.0, 0}}}), m.st[i].prior = {0.5, 0.5}; }
        m.st[13] = {true, 2.0, {}, {}}; m.st[14] = {false, -0.5, {{0, 1.0, {{13, 1.0, 0}}}}, {1.0}};
        return m;
    }
    struct Case { std::string name; Cfg cfg; Mdp mdp; int T, T_thorough; double scale = 8.0; double rtol = 1e-5; int deep = 0; bool single = false; };

    bool eq(double x, double y, const Case& c) {
        if (!(std::isfinite(x) && std::isfinite(y))) return false;
        return fabs(x - y) <= c.rtol * std::max(fabs(x), fabs(y)) + 1e-9 * c.scale;
    }

    // which printed numbers a property speaks about
    bool speaks(const std::string& prop, int algo, bool decision, const std::string& name) {
        if (prop == "C09") return is_uct(algo) && name == "vl";
        if (prop == "C11") return (algo >= MENTS && algo <= TENTS && name == "vl") || (algo == DBMENTS && name == "soft_val");
        if (prop == "C13") return (algo == DBMENTS || algo == DENTS || algo == EST) && name == "vl";
        if (prop == "C14") return name == "temp" || name == "val_temp" || name == "entrpy" || (algo == DENTS && name == "soft_val");
        return false;
    }

    template <class N>
    void compare_node(Run& r, const Case& c, const std::vector<Path>& h, const PNode& p, const N& n, const ref::Model& m, bool decision, const std::string& where) {
        auto ex = m.printed(n);
        for (auto& e : ex) {
            if (!speaks(r.prop, c.cfg.algo, decision, e.first)) continue;
            r.check();
            auto it = p.named.find(e.first);
            if (it == p.named.end()) r.fail("%s: no '%s' printed at %s", c.name.c_str(), e.first.c_str(), where.c_str());
            if (!eq(it->second, e.second, c))
                r.fail("%s: %s of the %s node at %s is %.9g, expected %.9g; history %s", c.name.c_str(), e.first.c_str(), decision ? "decision" : "chance",
                    where.c_str(), it->second, e.second, show(h).c_str());
        }
        if (r.want("C06")) {
            r.check();
            if (p.visits != n.visits)
                r.fail("%s: %ld visits at %s, expected %ld; history %s", c.name.c_str(), p.visits, where.c_str(), n.visits, show(h).c_str());
        }
    }
    void compare(Run& r, const Case& c, const std::vector<Path>& h, const PNode& p, const ref::C& n, const ref::Model& m, const std::string& where);
    void compare(Run& r, const Case& c, const std::vector<Path>& h, const PNode& p, const ref::D& n, const ref::Model& m, const std::string& where) {
        compare_node(r, c, h, p, n, m, true, where);
        if (p.kids.size() != n.kids.size()) r.fail("%s: %zu children at %s, expected %zu; history %s", c.name.c_str(), p.kids.size(), where.c_str(), n.kids.size(), show(h).c_str());
        for (auto& k : n.kids) {
            if (!p.kids.count(k.first)) r.fail("%s: child for action %d missing at %s; history %s", c.name.c_str(), k.first, where.c_str(), show(h).c_str());
            compare(r, c, h, *p.kids.at(k.first), *k.second, m, where + "/" + std::to_string(k.first));
        }
    }
    void compare(Run& r, const Case& c, const std::vector<Path>& h, const PNode& p, const ref::C& n, const ref::Model& m, const std::string& where) {
        compare_node(r, c, h, p, n, m, false, where);
        if (p.kids.size() != n.kids.size()) r.fail("%s: %zu successors at %s, expected %zu; history %s", c.name.c_str(), p.kids.size(), where.c_str(), n.kids.size(), show(h).c_str());
        for (auto& k : n.kids) {
            if (!p.kids.count(k.first)) r.fail("%s: successor %d missing at %s; history %s", c.name.c_str(), k.first, where.c_str(), show(h).c_str());
            compare(r, c, h, *p.kids.at(k.first), *k.second, m, where + ">" + std::to_string(k.first));
        }
    }
    // conservation read off the printed tree itself (trees without shared nodes)
    long conserve(Run& r, const Case& c, const std::vector<Path>& h, const PNode& p, const std::string& where) {
        long sum = 0;
        for (auto& k : p.kids) sum += conserve(r, c, h, *k.second, where + "/" + std::to_string(k.first));
        if (!p.decision && sum != p.visits) r.fail("%s: chance node at %s has %ld visits, its successors %ld; history %s", c.name.c_str(), where.c_str(), p.visits, sum, show(h).c_str());
        if (p.decision && sum > p.visits) r.fail("%s: decision node at %s has %ld visits, its children %ld; history %s", c.name.c_str(), where.c_str(), p.visits, sum, show(h).c_str());
        r.check();
        return p.visits;
    }

    // ---- values and structure -----------------------------------------------------------------------------------
    void run_values(Run& r, const Case& c0) {
        Case c = c0;
        int T = r.thorough() ? c.T_thorough : c.T;
        if (r.want("C26") && !r.thorough()) T = std::min(T, 3);        // the outcomes are measured by run_selection
        Explorer ex(r, c.cfg, &c.mdp, T, c.name); ex.set_deep(c.deep, r.thorough()); if (c.single) ex.no_deviations = !r.thorough();
        ex.on_state = [&](const std::vector<Path>& h, const Vals& v, Result& res, ref::Model& m) {
            r.sample(c.name + ": trials " + show(h) + "tree " + res.text.substr(0, 300));
            if (r.want("C25")) {
                // shape only; heuristic evaluated once per created non-sink node
                if (c.cfg.heuristic) {
                    std::map<int,int> want; std::set<const ref::D*> done;
                    std::function<void(const ref::D&)> walk = [&](const ref::D& d) {
                        if (!done.insert(&d).second) return;
                        if (!d.sink) want[d.s]++;
                        for (auto& k : d.kids) for (auto& j : k.second->kids) walk(*j.second);
                    };
                    walk(*m.root);
                    if (want != res.heur) {
                        std::ostringstream o; for (auto& x : res.heur) o << " " << x.first << ":" << x.second;
                        o << ", expected"; for (auto& x : want) o << " " << x.first << ":" << x.second;
                        r.fail("%s: heuristic evaluated (state:times)%s; history %s", c.name.c_str(), o.str().c_str(), show(h).c_str());
                    }
                }
                r.check();
            }
            if (r.want("C06") && !c.cfg.ttable && c.cfg.pseudo == 0) {
                conserve(r, c, h, *res.tree, "root");
                if (res.tree->visits != (long) h.size()) r.fail("%s: root visits %ld after %zu trials", c.name.c_str(), res.tree->visits, h.size());
            }
            if (!h.empty()) {
                // the rewards credited are those of the steps of the path
                if (r.want("C26") || r.want("C25")) {
                    const Path& p = h.back(); bool ok = res.steps.size() == p.size();
                    for (size_t i = 0; ok && i < p.size(); i++) ok = res.steps[i].a == p[i].a && res.steps[i].o == p[i].o;
                    if (!ok) r.fail("%s: rewards were collected for other steps than the path %s", c.name.c_str(), show(p).c_str());
                }
            }
            compare(r, c, h, *res.tree, *m.root, m, "root");
        };
        ex.go();
    }

    // ---- selection ----------------------------------------------------------------------------------------------
    // near-ties: the set that may win, and whether the tie is exact whatever the arithmetic
    struct Best { std::set<int> set; bool exact = true; };
    template <class V, class S>
    Best best_of(const std::vector<int>& keys, V val, S sig, double scale) {
        double mx = -INFINITY; for (int k : keys) mx = std::max(mx, val(k));
        Best b; std::string s0; bool first = true;
        for (int k : keys) if (val(k) >= mx - 1e-9 * scale) {
            b.set.insert(k);
            std::string s = sig(k);
            if (first) { s0 = s; first = false; } else if (s != s0) b.exact = false;
        }
        return b;
    }
    // measured must be uniform over a non-empty part of the set (the whole set if exact)
    bool uniform_over(const std::map<std::string,double>& d, const Best& b) {
        std::vector<double> ps; double tot = 0;
        for (auto& p : d) {
            if (p.second < 1e-7) continue;
            int k = atoi(p.first.c_str());
            if (std::to_string(k) != p.first || !b.set.count(k)) return false;
            ps.push_back(p.second); tot += p.second;
        }
        if (fabs(tot - 1.0) > 1e-6 || ps.empty()) return false;
        for (double p : ps) if (fabs(p - 1.0 / ps.size()) > 1e-6) return false;
        return !b.exact || ps.size() == b.set.size();
    }
    std::string sigr(const std::vector<double>& v, long visits) { std::ostringstream o; o.precision(17); o << visits; for (double x : v) o << " " << x; return o.str(); }

    void run_selection(Run& r, const Case& c0) {
        Case c = c0;
        int T = r.thorough() ? c.T_thorough : c.T;
        Explorer ex(r, c.cfg, &c.mdp, T, c.name); ex.set_deep(c.deep, r.thorough()); if (c.single) ex.no_deviations = !r.thorough();
        ex.no_deviations = c.deep < 0 || c.single || !r.thorough();
        if (c.single && !r.thorough()) ex.sequences = is_uct(c.cfg.algo) ? 2 : 1;
        // forced: the element that followed without any draw (empty: measure the distribution)
        auto judge = [&](const std::vector<Path>& h, const Vals& v, const std::vector<int>& el, ref::Model& m, const std::string& forced) {
            // walk the model along the partial path of this trial, with this trial's visits and parent policies
            ref::Model w(m.cfg, m.mdp); for (auto& p : h) w.apply(p);
            std::shared_ptr<ref::D> d = w.root; std::vector<std::map<int,double>> dist; std::shared_ptr<ref::C> cn;
            w.visit(*d);
            for (size_t i = 0; i < el.size(); i++) {
                if (i % 2 == 0) {
                    if (w.is_ments()) dist.push_back(w.policy(*d, dist.empty() ? nullptr : &dist.back()));
                    if (!d->kids.count(el[i])) d->kids[el[i]] = w.make_c(*d, el[i]);
                    cn = d->kids[el[i]]; cn->visits++;
                } else { d = w.child(*cn, el[i]); w.visit(*d); }
            }
            bool action = el.size() % 2 == 0;
            if (action && !r.want("C10") && !r.want("C12")) return;
            if (!action && !r.want("C26")) return;
            seq::Box box = next_element(c.cfg, &c.mdp, v, (int) h.size() + 1, el.size(), r);
            std::ostringstream here; here << c.name << ": after " << show(h) << "at"; for (int e : el) here << " " << e;
            r.current(here.str() + "\ndraws " + show(v));
            for (int grid : {16, 256, 4096}) {
                Dist got;
                if (forced.empty()) { Measure ms(box, grid, c.single && w.is_ments() ? 1e-6 : 1e-8); got = ms.dist(); }
                else got[forced] = 1.0;
                r.check();
                std::string want; bool ok;
                if (!action) {
                    const Act* a = c.mdp.find(d->s, el.back());
                    Dist e; for (auto& o : a->outs) if (o.p > 0) e[std::to_string(o.s)] += o.p;
                    ok = seq::close_to(got, e, 2e-7);
                    for (auto& p : got) if (!e.count(p.first)) ok = false;
                    want = seq::show(e);
                } else if (w.is_ments()) {
                    auto pi = w.policy(*d, dist.empty() ? nullptr : &dist.back());
                    Dist e; for (auto& p : pi) if (p.second > 0) e[std::to_string(p.first)] = p.second;
                    ok = seq::close_to(got, e, c.single ? 2e-5 : 2e-7);
                    for (auto& p : got) if (!e.count(p.first)) ok = false;
                    want = seq::show(e);
                } else {
                    std::vector<int> ids, untried;
                    for (auto& a : w.acts(*d)) { ids.push_back(a.id); if (!d->kids.count(a.id)) untried.push_back(a.id); }
                    Best b;
                    if (!c.cfg.prior && !untried.empty()) { b.set.insert(untried.begin(), untried.end()); }
                    else {
                        double bias = c.cfg.bias;
                        if (bias == -1.0) { bias = 0.001; for (auto& k : d->kids) bias = std::max(bias, fabs(w.mean(k.second->rets))); }
                        double N = std::max(1.0, (double) d->visits);
                        auto value = [&](int a) {
                            auto it = d->kids.find(a);
                            double n = it == d->kids.end() ? 1.0 : std::max(1.0, (double) it->second->visits);
                            double t = c.cfg.algo == UCT ? std::sqrt(std::log(N) / n) : std::pow(N, c.cfg.power) / n;
                            double x = bias * t * (c.cfg.prior ? w.prior(*d, a) : 1.0);
                            if (it != d->kids.end()) x += w.sg(d->t) * w.mean(it->second->rets);
                            return x;
                        };
                        auto sig = [&](int a) {
                            auto it = d->kids.find(a);
                            return (it == d->kids.end() ? std::string("-") : sigr(it->second->rets, it->second->visits)) + "|" + std::to_string(c.cfg.prior ? w.prior(*d, a) : 1.0);
                        };
                        b = best_of(ids, value, sig, c.scale);
                    }
                    double eps = c.cfg.eps_uct, n = (double) ids.size();
                    Dist rest; ok = true;
                    if (eps < 1.0) {
                        for (int a : ids) {
                            auto it = got.find(std::to_string(a));
                            double p = it == got.end() ? 0.0 : it->second;
                            double x = (p - eps / n) / (1 - eps);
                            if (x < -1e-6) ok = false;
                            if (x > 1e-7) rest[std::to_string(a)] = x;
                        }
                        for (auto& p : got) if (std::find_if(ids.begin(), ids.end(), [&](int a) { return std::to_string(a) == p.first; }) == ids.end()) ok = false;
                        ok = ok && uniform_over(rest, b);
                    } else for (int a : ids) { auto it = got.find(std::to_string(a)); if (it == got.end() || fabs(it->second - 1 / n) > 1e-6) ok = false; }
                    std::ostringstream o; o << eps << "/" << n << " each and the rest uniformly over"; for (int a : b.set) o << " " << a; if (!b.exact) o << " (rounding may decide)";
                    want = o.str();
                }
                if (ok) return;
                if (!forced.empty() || grid == 4096 || (grid == 256 && !w.is_ments() && action))
                    r.fail("%s, the next %s has distribution %s, expected %s (draws %s)", here.str().c_str(), action ? "action" : "outcome", seq::show(got).c_str(), want.c_str(), show(v).c_str());
            }
        };
        ex.on_decision = [&](const std::vector<Path>& h, const Vals& v, const std::vector<int>& el, ref::Model& m) { judge(h, v, el, m, ""); };
        std::set<std::string> done;
        ex.on_state = [&](const std::vector<Path>& h2, const Vals& v, Result& res, ref::Model&) {
            if (h2.empty()) return;
            std::vector<Path> h(h2.begin(), h2.end() - 1);
            std::vector<int> el, full; for (auto& s : h2.back()) { full.push_back(s.a); full.push_back(s.o); }
            for (int e : full) {
                std::string k = ex.key(h, el) + 'd';
                if (!ex.seen.count(k) && done.insert(k).second) {
                    ref::Model m(c.cfg, &c.mdp); for (auto& p : h) m.apply(p);
                    judge(h, v, el, m, std::to_string(e));
                }
                el.push_back(e);
            }
            r.sample(c.name + ": trials " + show(h2));
        };
        ex.go();
    }

    // ---- recommendation -----------------------------------------------------------------------------------------
    Best recommend(const Case& c, const ref::Model& m, const ref::D& d) {
        std::vector<int> ids, kids;
        for (auto& a : m.acts(d)) { ids.push_back(a.id); if (d.kids.count(a.id)) kids.push_back(a.id); }
        bool soft = c.cfg.algo == MENTS || c.cfg.algo == RENTS || c.cfg.algo == TENTS;
        auto sig = [&](int a) {
            auto it = d.kids.find(a);
            if (it == d.kids.end()) return "-" + std::to_string(c.cfg.prior ? m.prior(d, a) : 0.0);
            return sigr(it->second->rets, it->second->visits);
        };
        if (c.cfg.most_visited) {
            if (kids.empty()) { Best b; b.set.insert(ids.begin(), ids.end()); return b; }
            auto f = [&](int a) { return (double) d.kids.at(a)->visits; };
            return best_of(kids, f, [](int) { return std::string(); }, 1.0);
        }
        if (kids.empty() && !soft) { Best b; b.set.insert(ids.begin(), ids.end()); return b; }
        auto value = [&](int a) {
            if (is_uct(c.cfg.algo)) return m.sg(d.t) * m.mean(d.kids.at(a)->rets);
            if (soft) return m.q(d, a);
            if (c.cfg.algo == DBMENTS || c.cfg.use_dp) return m.sg(d.t) * d.kids.at(a)->dp;
            return m.sg(d.t) * m.mean(d.kids.at(a)->rets);
        };
        std::vector<int> pref, other;
        for (int a : soft ? ids : kids) {
            if (d.kids.count(a) && (is_uct(c.cfg.algo) || d.kids.at(a)->visits >= c.cfg.rec_threshold)) pref.push_back(a); else other.push_back(a);
        }
        return best_of(pref.empty() ? other : pref, value, sig, c.scale);
    }
    void run_recommend(Run& r, const Case& c0) {
        Case c = c0;
        int T = r.thorough() ? c.T_thorough : c.T;
        Explorer ex(r, c.cfg, &c.mdp, T, c.name); ex.set_deep(c.deep, r.thorough()); if (c.single) ex.no_deviations = !r.thorough();
        ex.on_state = [&](const std::vector<Path>& h, const Vals& v, Result& res, ref::Model& m) {
            // every decision node of the tree
            std::function<void(shared_ptr<ThtsDNode>, const ref::D&, const std::string&)> walk =
                [&](shared_ptr<ThtsDNode> n, const ref::D& d, const std::string& where) {
                if (!d.sink) {
                    seq::Box box = [&](const Vals& dd) {
                        SoftDraws dr; dr.v = &dd; D() = &dr; G() = &c.mdp;
                        seq::Ans a; ThtsEnvContext ctx;
                        try { a.out = std::to_string(aid(n->recommend_action_itfc(ctx))); a.need = dr.need; a.n = dr.n; }
                        catch (const std::exception& e) { a.out = std::string("exception: ") + e.what(); }
                        if (!dr.bad.empty()) a.out = dr.bad;
                        D() = nullptr; r.trans();
                        return a;
                    };
                    Measure ms(box);
                    Dist got = ms.dist(); r.check();
                    Best b = recommend(c, m, d);
                    std::ostringstream o; for (int a : b.set) o << " " << a; if (!b.exact) o << " (rounding may decide)";
                    if (!uniform_over(got, b))
                        r.fail("%s: recommendation at %s after %s is %s, expected uniformly one of%s\n%s", c.name.c_str(), where.c_str(), show(h).c_str(), seq::show(got).c_str(), o.str().c_str(), res.text.c_str());
                }
                for (auto& k : d.kids) {
                    shared_ptr<const Action> a = mka(k.first);
                    if (!n->has_child_node_itfc(a)) r.fail("%s: child %d missing at %s", c.name.c_str(), k.first, where.c_str());
                    auto cn = n->get_child_node_itfc(a);
                    for (auto& j : k.second->kids) {
                        shared_ptr<const Observation> ob = mks(j.first);
                        if (!cn->has_child_node_itfc(ob)) r.fail("%s: successor %d missing at %s", c.name.c_str(), j.first, where.c_str());
                        walk(cn->get_child_node_itfc(ob), *j.second, where + "/" + std::to_string(k.first) + ">" + std::to_string(j.first));
                    }
                }
            };
            r.sample(c.name + ": trials " + show(h));
            walk(res.b.root, *m.root, "root");
            if (print(res.b.root) != res.text) r.fail("%s: recommending changed the tree after %s", c.name.c_str(), show(h).c_str());
        };
        ex.go();
    }

    // ---- mirror image -------------------------------------------------------------------------------------------
    bool mirrored(const PNode& a, const PNode& b, const Case& c, std::string& why, const std::string& where) {
        if (a.visits != b.visits) { why = "visits at " + where; return false; }
        for (auto& n : a.named) {
            auto it = b.named.find(n.first);
            if (it == b.named.end()) { why = "missing value at " + where; return false; }
            bool t = n.first == "temp" || n.first == "val_temp";
            if (!eq(n.second, t ? it->second : -it->second, c)) { why = n.first + " at " + where + ": " + std::to_string(n.second) + " and " + std::to_string(it->second); return false; }
        }
        if (a.kids.size() != b.kids.size()) { why = "children at " + where; return false; }
        for (auto& k : a.kids) {
            if (!b.kids.count(k.first)) { why = "child at " + where; return false; }
            if (!mirrored(*k.second, *b.kids.at(k.first), c, why, where + "/" + std::to_string(k.first))) return false;
        }
        return true;
    }
    void run_mirror(Run& r, const Case& c0) {
        Case c = c0;
        int T = r.thorough() ? c.T_thorough : c.T;
        Mdp neg = c.mdp; neg.sign = -1.0;
        Cfg cn = c.cfg; cn.root_timestep = 1 - c.cfg.root_timestep; cn.default_q = -c.cfg.default_q;
        Explorer ex(r, c.cfg, &c.mdp, T, c.name); ex.set_deep(c.deep, r.thorough()); if (c.single) ex.no_deviations = !r.thorough();
        auto recs = [&](shared_ptr<ThtsDNode> n, Mdp* mdp) {
            seq::Box box = [&, n, mdp](const Vals& dd) {
                SoftDraws dr; dr.v = &dd; D() = &dr; G() = mdp;
                seq::Ans a; ThtsEnvContext ctx;
                a.out = std::to_string(aid(n->recommend_action_itfc(ctx)));
                a.need = dr.need; a.n = dr.n;
                D() = nullptr;
                return a;
            };
            Measure ms(box); return ms.dist();
        };
        ex.on_state = [&](const std::vector<Path>& h, const Vals& v, Result& res, ref::Model& m) {
            Result o = run(cn, &neg, v, (int) h.size());
            r.exec(); r.check();
            std::string why;
            if (!o.error.empty()) r.fail("%s: mirror image threw %s after %s", c.name.c_str(), o.error.c_str(), show(h).c_str());
            if (o.need || o.trials != (int) h.size() || o.part.el != res.part.el)
                r.fail("%s: the mirror image took other choices after %s (draws %s)\n%s\n%s", c.name.c_str(), show(h).c_str(), show(v).c_str(), res.text.c_str(), o.text.c_str());
            if (!mirrored(*res.tree, *o.tree, c, why, "root"))
                r.fail("%s: not the mirror image: %s; history %s\n%s\n%s", c.name.c_str(), why.c_str(), show(h).c_str(), res.text.c_str(), o.text.c_str());
            Dist a = recs(res.b.root, &c.mdp), b = recs(o.b.root, &neg);
            if (!seq::close_to(a, b, 1e-9)) r.fail("%s: recommendations differ: %s and %s; history %s", c.name.c_str(), seq::show(a).c_str(), seq::show(b).c_str(), show(h).c_str());
            // and the game itself agrees with the definitions (values with the opponent's sign)
            Case cc = c; std::string p = r.prop;
            for (const char* q : {"C09", "C11", "C13", "C14"}) { r.prop = q; compare(r, cc, h, *res.tree, *m.root, m, "root"); }
            r.prop = p;
            r.sample(c.name + ": trials " + show(h));
        };
        ex.on_decision = [&](const std::vector<Path>& h, const Vals& v, const std::vector<int>& el, ref::Model& m) {
            Result o = run(cn, &neg, v, (int) h.size() + 1);
            r.exec();
            if (!o.error.empty() || !o.need || o.part.el != el) r.fail("%s: the mirror image took other choices within a trial after %s (draws %s)", c.name.c_str(), show(h).c_str(), show(v).c_str());
            Result p = run(c.cfg, &c.mdp, v, (int) h.size() + 1);
            if (p.n != o.n) r.fail("%s: the mirror image draws from %d instead of %d alternatives after %s", c.name.c_str(), o.n, p.n, show(h).c_str());
        };
        ex.go();
    }

    // ---- Monte-Carlo evaluation of the reached tree -----------------------------------------------------------------
    struct EHooks : public EnvHooks {
        std::string path, odd; int contexts = 0, at = -1; double ret = 0; Mdp* mdp;
        void on_reward(int s, int a, int o) override {
            if (contexts != 1) odd = "a step without its own context";
            if (s != at) odd = "a step from another state than the one reached";
            path += " " + std::to_string(a) + ">" + std::to_string(o);
            at = o;
            const Act* x = mdp->find(s, a);
            if (!x || o < 0) { odd = "reward of no step"; return; }
            double r = x->r; for (auto& y : x->outs) if (y.s == o) { r += y.bonus; break; }
            ret += mdp->sign * r;
        }
        shared_ptr<ThtsEnvContext> make_context(int s) override { contexts++; if (s != mdp->init) odd = "context of another state"; at = mdp->init; return nullptr; }
        void on_illegal(const char* w) override { odd = std::string("impossible ") + w; }
    };
    void run_eval(Run& r, const Case& c0) {
        Case c = c0;
        int T = r.thorough() ? c.T_thorough : c.T;
        Explorer ex(r, c.cfg, &c.mdp, T, c.name); ex.set_deep(c.deep, r.thorough()); if (c.single) ex.no_deviations = !r.thorough();
        ex.on_state = [&](const std::vector<Path>& h, const Vals& v, Result& res, ref::Model& m) {
            r.sample(c.name + ": trials " + show(h));
            for (int len = 0; len <= (r.thorough() ? 4 : 3); len++) {
                // reference distribution of the rollout
                Dist want; bool exact = true;
                std::function<void(int, const ref::D*, int, double, std::string)> walk = [&](int s, const ref::D* d, int left, double p, std::string path) {
                    if (left == 0 || c.mdp.st[s].sink) { want[path] += p; return; }
                    std::set<int> as;
                    if (d) { Best b = recommend(c, m, *d); exact = exact && b.exact; as = b.set; }
                    else for (auto& a : c.mdp.st[s].acts) as.insert(a.id);
                    for (int a : as) for (auto& o : c.mdp.find(s, a)->outs) if (o.p > 0) {
                        const ref::D* nx = nullptr;
                        if (d) { auto it = d->kids.find(a); if (it != d->kids.end()) { auto jt = it->second->kids.find(o.s); if (jt != it->second->kids.end()) nx = jt->second.get(); } }
                        walk(o.s, nx, left - 1, p / as.size() * o.p, path + " " + std::to_string(a) + ">" + std::to_string(o.s));
                    }
                };
                walk(c.mdp.init, m.root.get(), len, 1.0, "");
                if (!exact) continue;
                seq::Box box = [&](const Vals& dd) {
                    SoftDraws dr; dr.v = &dd; EHooks hk; hk.mdp = &c.mdp;
                    D() = &dr; G() = &c.mdp; H() = &hk;
                    seq::Ans a;
                    {
                        ChoiceRand rnd;
                        EvalPolicy pol(res.b.root, res.b.env, rnd);
                        MCEvaluator ev(res.b.env, pol, len, rnd);
                        ev.run_rollouts(1, 1);
                        a.out = hk.path; a.need = dr.need; a.n = dr.n;
                        if (hk.contexts != 1) a.out = std::to_string(hk.contexts) + " contexts";
                        if (!hk.odd.empty()) a.out = hk.odd;
                        if (fabs(ev.get_mean_return() - hk.ret) > 1e-9 * (1 + fabs(hk.ret))) a.out = "mean " + std::to_string(ev.get_mean_return()) + " of the return " + std::to_string(hk.ret);
                    }
                    if (!dr.bad.empty()) a.out = dr.bad;
                    D() = nullptr; H() = nullptr; r.trans(); r.exec();
                    return a;
                };
                std::ostringstream here; here << c.name << ": rollout of at most " << len << " steps after " << show(h);
                r.current(here.str());
                Measure ms(box);
                Dist got = ms.dist(); r.check();
                bool ok = seq::close_to(got, want, 2e-7);
                for (auto& p : got) if (!want.count(p.first)) ok = false;
                if (!ok) r.fail("%s takes the paths %s, expected %s", here.str().c_str(), seq::show(got).c_str(), seq::show(want).c_str());
            }
            if (print(res.b.root) != res.text) r.fail("%s: evaluating changed the tree after %s", c.name.c_str(), show(h).c_str());
        };
        ex.go();
    }

    // ---- a seed decides everything (C22) --------------------------------------------------------------------------
    // one search with the library's own generator and one worker: all trees on the way and the recommendations of all
    // their nodes
    std::string seeded(const Case& c, int seed, const std::vector<int>& calls, Built* keep) {
        Cfg cfg = c.cfg; cfg.seed = seed; cfg.choice = false;
        Mdp m = c.mdp; G() = const_cast<Mdp*>(&c.mdp); D() = nullptr; H() = nullptr;
        Built b = build(cfg);
        std::string out;
        {
            ThtsPool pool(b.manager, b.root, 1);
            for (int n : calls) {
                pool.run_trials(n);
                out += print(b.root) + "\n";
                ThtsEnvContext ctx;
                std::function<void(const ThtsDNode&, int)> rec = [&](const ThtsDNode& d, int s) {
                    if (c.mdp.st[s].sink) return;
                    out += std::to_string(aid(d.recommend_action_itfc(ctx))) + " ";
                    for (auto& a : c.mdp.st[s].acts) {
                        shared_ptr<const Action> ap = mka(a.id);
                        if (!d.has_child_node_itfc(ap)) continue;
                        auto cn = d.get_child_node_itfc(ap);
                        for (auto& o : a.outs) {
                            shared_ptr<const Observation> op = mks(o.s);
                            if (cn->has_child_node_itfc(op)) rec(*cn->get_child_node_itfc(op), o.s);
                        }
                    }
                };
                rec(*b.root, c.mdp.init);
                out += "\n";
            }
            for (int i = 0; i < 4; i++) out += std::to_string(b.manager->get_rand_int(0, 1000)) + " " + std::to_string(b.manager->get_rand_uniform()) + " ";
            // and of an evaluation with the same generator
            EvalPolicy pol(b.root, b.env, *b.manager);
            MCEvaluator ev(b.env, pol, 4, *b.manager);
            ev.run_rollouts(5, 1);
            out += std::to_string(ev.get_mean_return());
        }
        if (keep) *keep = b;
        return out;
    }
    // fresh memory holds something else in every search
    volatile unsigned char g_fill = 0xbe;
    void fill_hook(const volatile void* p, size_t n) { if (n <= 4096) memset(const_cast<void*>(p), g_fill, n); }
    void free_hook(const volatile void*) {}
    void run_repro(Run& r, const Case& c) {
        static bool once = false;
        if (!once) { once = true; __sanitizer_install_malloc_and_free_hooks(fill_hook, free_hook); }
        const int NOISE = 6;
        std::vector<std::vector<int>> seqs{{}};
        for (size_t i = 0, depth = r.thorough() ? 3 : 2; i < seqs.size(); i++)
            if (seqs[i].size() < depth) for (int k = 0; k < NOISE; k++) { auto v = seqs[i]; v.push_back(k); seqs.push_back(v); }
        std::vector<int> seeds{1, 2, 60415, -3}; if (r.thorough()) for (int s = 3; s < 20; s++) seeds.push_back(s);
        std::vector<int> calls = r.thorough() ? std::vector<int>{1, 3, 20, 60} : std::vector<int>{2, 5, 20};
        for (int seed : seeds) {
            std::string first = seeded(c, seed, calls, nullptr); r.exec(); r.state();
            r.sample(c.name + " seed " + std::to_string(seed) + ": " + first.substr(first.size() > 200 ? first.size() - 200 : 0));
            for (auto& sq : seqs) {
                std::vector<std::unique_ptr<char[]>> blocks; std::vector<Built> kept; std::vector<std::unique_ptr<RandManager>> rms;
                std::ostringstream d; d << c.name << ": seed " << seed << " after other activities";
                for (int k : sq) {
                    d << " " << k;
                    switch (k) {
                        case 0: for (int i = 1; i < 400; i++) blocks.emplace_back(new char[(i * 37) % 700 + 1]);
                                for (size_t i = 0; i < blocks.size(); i += 3) blocks[i].reset(); break;
                        case 1: for (int i = 0; i < 7; i++) (void) rand(); srand(seed * 5 + 1); break;
                        case 2: rms.push_back(std::make_unique<RandManager>(seed)); rms.back()->get_rand_int(0, 9); rms.back()->get_rand_uniform(); break;
                        case 3: { Built b; seeded(c, seed + 1, {4}, &b); kept.push_back(b); break; }
                        case 4: { Built b; seeded(c, seed, {3, 2}, &b); kept.push_back(b); break; }
                        case 5: seeded(c, 0, {3}, nullptr); break;
                    }
                }
                static const unsigned char fills[] = {0x00, 0x01, 0xff, 0x7f, 0xbe, 0x41};
                g_fill = fills[(&sq - &seqs[0]) % 6];
                r.current(d.str());
                std::string again = seeded(c, seed, calls, nullptr); r.exec(); r.trans(); r.check();
                if (again != first) {
                    size_t i = 0; while (i < again.size() && i < first.size() && again[i] == first[i]) i++;
                    size_t f = i > 60 ? i - 60 : 0;
                    r.fail("%s the search differs:\n...%s\ninstead of\n...%s", d.str().c_str(), again.substr(f, 160).c_str(), first.substr(f, 160).c_str());
                }
            }
        }
    }

    // ---- temperatures for all visit counts on a grid (C14) ----------------------------------------------------------
    void run_decay(Run& r) {
        struct { TempDecayFnPtr f; const char* n; } fs[] = {{&decayed_temp_inv_sqrt, "inv_sqrt"}, {&decayed_temp_inv_log, "inv_log"}, {&decayed_temp_sigmoid, "sigmoid"}};
        std::vector<int> vs; for (int i = 0; i <= 3000; i++) vs.push_back(i);
        for (long v = 4096; v < 2147483647L; v *= 2) { vs.push_back((int) v - 1); vs.push_back((int) v); vs.push_back((int) v + 1); }
        vs.push_back(2147483647);
        for (auto& f : fs) for (double init : {1e-9, 0.01, 0.2, 1.0, 3.0, 1e4}) for (double mn : {0.0, 1e-6, 0.3, 1.0, 50.0}) for (double sc : {1e-6, 0.01, 0.5, 1.0, 3.0, 1e3}) {
            r.exec(); double last = INFINITY;
            for (int v : vs) {
                double t = compute_decayed_temp(f.f, init, mn, v, sc); r.check(); r.trans();
                double m = sc * (double) v;
                double k = f.f == fs[0].f ? 1 / std::sqrt(1 + m) : f.f == fs[1].f ? 1 / std::log(std::exp(1.0) + m) : (1 + std::exp(-5.0)) / (1 + std::exp(m - 5));
                double e = std::max(mn, init * k);
                if (!(fabs(t - e) <= 1e-9 * e + 1e-300) || t < mn || t > last * (1 + 1e-12))
                    r.fail("temperature %s init %g min %g after %d visits with scale %g is %.17g, expected %.17g (before %.17g)", f.n, init, mn, v, sc, t, e, last);
                last = t;
            }
            r.state();
        }
    }

    // ---- registration -------------------------------------------------------------------------------------------
    void add(const Case& c, const std::string& props, int tier, void (*fn)(Run&, const Case&), const char* prefix) {
        std::string name = std::string(prefix) + "_" + algo_name(c.cfg.algo) + "_" + c.name;
        Case cc = c; cc.name = name;
        seq::configs().push_back({name, props, tier, [cc, fn](Run& r) { fn(r, cc); }});
    }
    Cfg base(int algo) {
        Cfg c; c.algo = algo;
        if (!is_uct(algo)) { c.temp = 1.0; c.epsilon = 0.5; }
        return c;
    }
    std::string value_props(int algo) {
        std::string p = "C06 C25 C26";
        if (is_uct(algo)) p += " C09";
        if (algo >= MENTS && algo <= DBMENTS) p += " C11";
        if (algo >= DBMENTS) p += " C13";
        if (!is_uct(algo) && algo != EST) p += " C14";
        return p;
    }
    // three and two alternatives everywhere, players to move at both parities, mixed signs, uneven priors
    Mdp mixed() {
        Mdp m; m.st.resize(7);
        m.st[0] = {false, 0.5, {{0, 1.0, {{1, 0.5, 0.5}, {2, 0.5, -0.5}}}, {1, -0.5, {{2, 1.0, 0}}}, {2, 0.25, {{3, 0.75, 0}, {1, 0.25, 1.0}}}}, {0.7, 0.2, 0.1}};
        m.st[1] = {false, -1.0, {{0, 2.0, {{4, 1.0, 0}}}, {1, -1.0, {{5, 0.5, 0}, {4, 0.5, 1.5}}}, {3, 0.75, {{6, 1.0, 0}}}}, {0.1, 0.8, 0.1}};
        m.st[2] = {false, 1.5, {{1, -2.0, {{4, 0.25, 0}, {5, 0.75, 0.25}}}, {2, 0.5, {{1, 1.0, 0}}}, {3, 0.0, {{5, 1.0, 0}}}}, {0.25, 0.5, 0.25}};
        m.st[3] = {false, 0.25, {{0, -0.25, {{5, 1.0, 0}}}, {4, 1.25, {{6, 0.5, 0}, {5, 0.5, 0}}}}, {0.9, 0.1}};
        m.st[4] = {false, -0.5, {{0, 0.5, {{6, 1.0, 0}}}, {1, 1.5, {{6, 1.0, 0}}}, {2, -1.5, {{5, 1.0, 0.5}}}}, {0.2, 0.2, 0.6}};
        m.st[5] = {false, 0.75, {{2, -1.0, {{6, 1.0, 0}}}, {5, 0.125, {{6, 1.0, 0}}}}, {0.5, 0.5}};
        m.st[6] = {true, 3.0, {}, {}};
        return m;
    }
    // the prior dislikes the good actions
    Mdp prize() {
        Mdp m; m.st.resize(4);
        m.st[0] = {false, 0.0, {{0, 1.0, {{1, 1.0, 0}}}, {1, 5.0, {{1, 0.5, 0}, {2, 0.5, 1.0}}}, {2, 4.0, {{2, 1.0, 0}}}}, {0.85, 0.1, 0.05}};
        m.st[1] = {false, 1.0, {{0, -4.0, {{3, 1.0, 0}}}, {1, -1.0, {{3, 1.0, 0}}}, {2, 2.5, {{3, 1.0, 0}}}}, {0.8, 0.15, 0.05}};
        m.st[2] = {false, -1.0, {{1, 3.0, {{3, 1.0, 0}}}, {0, -3.0, {{3, 1.0, 0}}}}, {0.05, 0.95}};
        m.st[3] = {true, 0.0, {}, {}};
        return m;
    }
    // Rows such that every combination of values of any three options occurs (greedy, deterministic).
    std::vector<std::vector<int>> covering(const std::vector<int>& levels) {
        const int n = (int) levels.size(), L = 5;
        std::vector<char> open(n * n * n * L * L * L, 0); long left = 0;
        auto at = [&](int i, int x, int j, int y, int k, int z) { return ((((i * n + j) * n + k) * L + x) * L + y) * L + z; };
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) for (int k = j + 1; k < n; k++)
            for (int x = 0; x < levels[i]; x++) for (int y = 0; y < levels[j]; y++) for (int z = 0; z < levels[k]; z++) { open[at(i, x, j, y, k, z)] = 1; left++; }
        std::vector<std::vector<int>> rows; unsigned long lcg = 12345;
        auto rnd = [&](int m) { lcg = lcg * 6364136223846793005ul + 1442695040888963407ul; return (int) ((lcg >> 33) % m); };
        auto count = [&](const std::vector<int>& row, bool take) {
            long g = 0;
            for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) for (int k = j + 1; k < n; k++) {
                char& o = open[at(i, row[i], j, row[j], k, row[k])];
                g += o; if (take) o = 0;
            }
            return g;
        };
        size_t f = 0;
        while (left > 0) {
            while (!open[f]) f++;
            int z = f % L, y = f / L % L, x = f / (L * L) % L, k = f / (L * L * L) % n, j = f / (L * L * L * n) % n, i = f / (L * L * L * n * n);
            std::vector<int> best; long gain = -1;
            for (int t = 0; t < 30; t++) {
                std::vector<int> row(n); for (int q = 0; q < n; q++) row[q] = rnd(levels[q]);
                row[i] = x; row[j] = y; row[k] = z;
                long g = count(row, false);
                if (g > gain) { gain = g; best = row; }
            }
            left -= count(best, true);
            rows.push_back(best);
        }
        return rows;
    }
    std::vector<int> option_levels(int a) {
        std::vector<int> l{3, 2, 2, 3, 3, 3, 2};
        if (is_uct(a)) { l.insert(l.end(), {4, 2, 2, 2}); if (a == PUCT) l.push_back(3); }
        else { l.insert(l.end(), {2, 5, 2, 2, 2, 3, 3}); if (a == DENTS || a == EST) l.insert(l.end(), {3, 2}); }
        return l;
    }
    Case option_case(int a, const std::vector<int>& row, const std::string& kind, int T) {
        Cfg c = base(a); Mdp m;
        c.two_player = row[0] > 0; c.root_timestep = row[0] == 2;
        c.prior = row[1]; c.heuristic = !row[2];
        c.mcts_mode = row[3] != 1; if (row[3]) c.max_depth = row[3] == 1 ? 3 : 2;
        m = row[4] == 0 ? mixed() : row[4] == 1 ? prize() : wide();
        c.lag = row[5] == 0 ? 0 : row[5] == 1 ? 1 : -1;
        if (kind == "mir") { c.two_player = true; c.lag = 0; }
        if (kind == "rec") c.lag = 0;                           // recommendations are made after searches
        if (a == TENTS) c.lag = 0;                              // caches the values of its last backup
        c.ttable = row[6]; c.tmutexes = 2;
        if (is_uct(a)) {
            const double bs[] = {1.0, -1.0, 0.25, 3.0}; c.bias = bs[row[7]];
            c.eps_uct = row[8] ? 0.25 : 0.0; c.pseudo = row[9] ? 2 : 0; c.most_visited = row[10];
            if (a == PUCT) { const double ps[] = {0.5, 0.25, 1.0}; c.power = ps[row[11]]; }
        } else {
            c.temp = row[7] ? 0.25 : 1.0;
            const double es[][3] = {{0.5, -1, 1}, {0, -1, 1}, {2, 0.3, 0.6}, {0.2, 3, 0.7}, {0, 0.5, 1}};
            c.epsilon = es[row[8]][0]; c.root_epsilon = es[row[8]][1]; c.max_explore = es[row[8]][2];
            c.prior_w = c.prior && row[9] ? 0.6 : 0.0;
            c.default_q = row[10] ? -1.5 : 0.0;
            c.shift = row[11]; c.shift_offset = row[11] ? 0.5 : 0.0;
            if (row[12] == 1) { c.decay = &decayed_temp_inv_sqrt; c.decay_root_scale = 3.0; }
            if (row[12] == 2) { c.decay = &decayed_temp_inv_log; c.decay_min = 0.3; c.decay_scale = 0.5; }
            c.rec_threshold = row[13] == 1 ? 2 : 0; c.most_visited = row[13] == 2;
            if (a == DENTS || a == EST) {
                if (row[14] == 1) { c.vdecay = &decayed_temp_inv_sqrt; c.vscale = 0.5; c.vroot_scale = 2.0; }
                if (row[14] == 2) { c.vdecay = &decayed_temp_sigmoid; c.vmin = 0.4; c.vtemp = 2.0; }
                c.use_dp = !row[15];
            }
        }
        std::string n = "options"; for (int x : row) n += " " + std::to_string(x);
        Case k{n, c, m, 0, 0, 8.0, 1e-5, T}; k.single = true; return k;
    }
    void options(int a, const std::string& props, void (*fn)(Run&, const Case&), const char* prefix, int T, int groups) {
        for (int g = 0; g < groups; g++) {
            std::string name = std::string(prefix) + "_" + algo_name(a) + "_options" + std::to_string(g);
            seq::configs().push_back({name, props, 0, [=](Run& r) {
                auto rows = covering(option_levels(a));
                for (size_t i = g; i < rows.size(); i += groups) fn(r, option_case(a, rows[i], prefix, T));
            }});
        }
    }
    void registry() {
        seq::configs().push_back({"decay", "C14", 0, run_decay});
        for (int a = 0; a < N_ALGO; a++) {
            std::vector<Case> vc;
            Cfg b = base(a);
            auto put = [&](std::string n, Cfg c, Mdp m, int T, int TT, double scale = 8.0, double rtol = 1e-5) {
                if (is_uct(a) && c.mcts_mode && c.eps_uct == 0.0) { T += 2; TT += 2; }
                vc.push_back({n, c, m, T, TT, scale, rtol});
            };
            { Cfg c = b; put("basic", c, basic(), is_uct(a) ? 3 : 4, 5); }
            { Cfg c = b; c.heuristic = false; put("noheur", c, basic(), 3, 4); }
            { Cfg c = b; c.mcts_mode = false; put("full", c, basic(), is_uct(a) ? 3 : 2, 3); }
            { Cfg c = b; c.mcts_mode = false; c.max_depth = 1; put("depth1", c, basic(), 3, 5); }
            { Cfg c = b; c.max_depth = 0; put("depth0", c, basic(), 3, 5); }
            { Cfg c = b; c.max_depth = 2; put("depth2", c, diamond(), 3, 4); }
            { Cfg c = b; c.two_player = true; put("two", c, basic(), 3, 4); }
            { Cfg c = b; c.two_player = true; c.root_timestep = 1; put("two1", c, diamond(), 3, 4); }
            { Cfg c = b; c.root_timestep = 1; put("one1", c, basic(), 2, 3); }
            // searches that start somewhere else and later
            { Cfg c = b; c.root_timestep = 3; c.max_depth = 2; c.mcts_mode = false; put("late2", c, ring(), 2, 3); }
            { Cfg c = b; c.root_timestep = 2; c.max_depth = 1; put("late1", c, ring(), 3, 4); }
            { Cfg c = b; c.root_timestep = 4; c.root_state = 1; c.max_depth = 3; c.two_player = true; put("late3", c, ring(), 3, 4); }
            { Cfg c = b; c.root_timestep = 1; c.root_state = 2; c.two_player = true; c.mcts_mode = false; put("elsewhere", c, basic(), 2, 3); }
            { Cfg c = b; c.root_timestep = 5; c.root_state = 1; c.max_depth = 2; c.ttable = true; put("latetable", c, ring(), 3, 4); }
            { Cfg c = b; put("losses", c, losses(50), 3, 4, 100); }
            { Cfg c = b; c.ttable = true; c.tmutexes = 2; Mdp m = diamond(); m.collide = true; put("tcollide", c, m, 3, 4); }
            // trials that overlap
            { Cfg c = b; c.lag = 1; put("lag1", c, basic(), 3, 4); }
            { Cfg c = b; c.lag = 2; c.two_player = true; put("lag2", c, diamond(), is_uct(a) ? 3 : 3, 4); }
            { Cfg c = b; c.lag = -1; put("nested", c, basic(), is_uct(a) ? 2 : 4, 4); }
            { Cfg c = b; c.lag = 1; c.mcts_mode = false; c.ttable = true; put("lagtable", c, diamond(), is_uct(a) ? 3 : 2, 3); }
            { Cfg c = b; c.lag = 1; c.heuristic = false; c.two_player = true; put("lagno", c, basic(), 3, 4); }
            { Cfg c = b; c.ttable = true; c.mcts_mode = false; put("table", c, diamond(), is_uct(a) ? 3 : 2, 3); }
            { Cfg c = b; c.ttable = true; c.tmutexes = 3; put("tablem", c, diamond(), 3, 4); }
            { Cfg c = b; c.prior = true; put("prior", c, basic(), 3, 4); }
            { Cfg c = b; put("chain", c, chain(), 6, 10); }
            { Cfg c = b; put("steep", c, steep(1e6), 3, 4, 1e6); }
            if (is_uct(a)) {
                { Cfg c = b; c.pseudo = 2; put("pseudo", c, basic(), 4, 5); }
                { Cfg c = b; c.pseudo = 1; put("cancel", c, cancel(), 4, 6, 1e5); }
                { Cfg c = b; c.pseudo = 3; c.two_player = true; c.bias = -1; put("autob", c, diamond(), 4, 6); }
                { Cfg c = b; c.eps_uct = 0.5; put("eps", c, basic(), 2, 3); }
            } else {
                { Cfg c = b; c.epsilon = 0.0; put("eps0", c, basic(), 3, 4); }
                { Cfg c = b; c.temp = 0.05; c.epsilon = 0.1; put("cold", c, basic(), 3, 4); }
                { Cfg c = b; c.temp = 100; put("hot", c, basic(), 3, 4); }
                { Cfg c = b; c.default_q = -3.0; put("defq", c, basic(), 3, 4); }
                { Cfg c = b; c.default_q = 2.0; c.two_player = true; put("defq2", c, diamond(), 3, 4); }
                { Cfg c = b; c.prior = true; c.shift = true; c.shift_offset = 1.5; put("shift", c, basic(), 3, 4); }
                { Cfg c = b; c.prior = true; c.prior_w = 0.5; c.epsilon = 0.2; put("mix", c, basic(), 3, 4); }
                { Cfg c = b; c.decay = &decayed_temp_inv_sqrt; c.decay_scale = 2.0; c.decay_root_scale = 0.5; put("decays", c, basic(), 3, 4); }
                { Cfg c = b; c.decay = &decayed_temp_inv_log; c.temp = 3.0; c.decay_min = 0.9; put("decayl", c, diamond(), 3, 4); }
                { Cfg c = b; c.decay = &decayed_temp_sigmoid; c.decay_scale = 3.0; put("decayg", c, basic(), 3, 4); }
                { Cfg c = b; c.decay = &decayed_temp_inv_sqrt; c.temp = 0.2; c.decay_min = 0.6; c.vdecay = &decayed_temp_inv_log; c.vtemp = 0.3; c.vmin = 0.7; put("decaymin", c, diamond(), 3, 4); }
                { Cfg c = b; c.temp = 1.0; c.prior = true; c.default_q = 0; put("steepp", c, steep(1e6), 3, 4, 1e6); }
                { Cfg c = b; c.temp = 1e-3; put("ratio", c, steep(1e3), 3, 4, a == TENTS ? 1e5 : 1e3); }
                { Cfg c = b; c.temp = 1e-3; c.two_player = true; put("ratio2", c, steep(1e3), 3, 4, a == TENTS ? 1e5 : 1e3); }
            }
            if (a == DENTS || a == EST) {
                { Cfg c = b; c.use_dp = false; put("emp", c, basic(), 3, 4); }
                { Cfg c = b; c.use_dp = false; c.temp = 1e9; put("cancel", c, cancel(), 5, 7, 1e5); }
                { Cfg c = b; c.use_dp = false; c.two_player = true; put("emp2", c, diamond(), 3, 4); }
                { Cfg c = b; c.use_dp = false; c.heuristic = false; c.mcts_mode = false; put("empfull", c, basic(), 2, 3); }
            }
            if (a == DENTS) {
                { Cfg c = b; c.vdecay = &decayed_temp_inv_sqrt; c.vtemp = 2.0; c.vscale = 0.5; c.vroot_scale = 3.0; put("vdecay", c, basic(), 3, 4); }
                { Cfg c = b; c.vdecay = &decayed_temp_sigmoid; c.vmin = 0.25; c.vscale = 2.0; c.decay = &decayed_temp_inv_log; put("vdecayg", c, diamond(), 3, 4); }
                { Cfg c = b; c.vtemp = 0.0; put("vzero", c, basic(), 3, 4); }
            }
            auto deep = [&](std::string n, Cfg c, Mdp m, int T, double scale = 8.0) { vc.push_back({n, c, m, 0, 0, scale, 1e-5, T}); };
            { Cfg c = b; deep("deep", c, basic(), 40); }
            { Cfg c = b; c.two_player = true; c.ttable = true; c.mcts_mode = false; c.max_depth = 3; if (is_uct(a)) { c.bias = -1; c.pseudo = 1; } else c.default_q = 0.5; deep("deeptable", c, ring(), 20); }
            { Cfg c = b; c.prior = true; if (!is_uct(a)) { c.decay = &decayed_temp_inv_sqrt; c.vdecay = &decayed_temp_inv_log; c.decay_min = 0.2; c.vmin = 0.4; } deep("deepwide", c, wide(), 30); }
            { Cfg c = b; c.lag = 2; if (!is_uct(a)) c.use_dp = false; deep("deeplag", c, wide(), 24); }
            { Cfg c = b; c.two_player = true; if (is_uct(a)) c.bias = -1; else { c.decay = &decayed_temp_inv_sqrt; c.vdecay = &decayed_temp_inv_sqrt; } deep("deeplong", c, basic(), -1200); }
            { Cfg c = b; c.mcts_mode = false; c.ttable = true; if (!is_uct(a)) c.use_dp = false; deep("deeplongt", c, diamond(), -600); }
            { Cfg c = b; c.mcts_mode = false; if (!is_uct(a)) c.decay = &decayed_temp_inv_sqrt; deep("deeptall", c, tall(), 3); }
            { Cfg c = b; c.mcts_mode = false; c.two_player = true; c.heuristic = false; if (!is_uct(a)) c.use_dp = false; deep("deeptall2", c, tall(), 3); }
            { Cfg c = b; deep("deeptallm", c, tall(), -200); }
            { Cfg c = b; if (is_uct(a)) c.bias = -1; deep("deepfan", c, fan(), 30); }
            for (auto& c : vc) add(c, value_props(a), 0, run_values, "val");
            options(a, value_props(a), run_values, "val", 16, 2);
        }
        // selection and outcomes
        for (int a = 0; a < N_ALGO; a++) {
            Cfg b = base(a);
            std::string p = is_uct(a) ? "C10" : "C12";
            std::vector<Case> sc;
            auto put = [&](std::string n, Cfg c, Mdp m, int T, int TT, double scale = 8.0) { sc.push_back({n, c, m, T, TT, scale}); };
            { Cfg c = b; put("basic", c, basic(), is_uct(a) ? 5 : 3, is_uct(a) ? 6 : 4); }
            { Cfg c = b; c.prior = true; put("prior", c, basic(), is_uct(a) ? 4 : 2, is_uct(a) ? 5 : 3); }
            { Cfg c = b; c.two_player = true; put("two", c, diamond(), is_uct(a) ? 5 : 2, is_uct(a) ? 6 : 3); }
            { Cfg c = b; c.mcts_mode = false; put("full", c, diamond(), 2, 3); }
            { Cfg c = b; put("flat", c, flat(1.0), is_uct(a) ? 5 : 3, is_uct(a) ? 6 : 4); }
            { Cfg c = b; Mdp m = basic(); m.collide = true; put("collide", c, m, is_uct(a) ? 4 : 2, is_uct(a) ? 5 : 3); }
            { Cfg c = b; put("flat0", c, flat(0.0), is_uct(a) ? 5 : 3, is_uct(a) ? 6 : 4); }
            // trials that overlap
            { Cfg c = b; c.lag = 1; put("lag1", c, basic(), is_uct(a) ? 5 : 3, is_uct(a) ? 6 : 4); }
            { Cfg c = b; c.lag = 2; put("lag2", c, losses(5), is_uct(a) ? 6 : 3, is_uct(a) ? 7 : 4, 10); }
            { Cfg c = b; c.lag = -1; c.two_player = true; put("nested", c, diamond(), is_uct(a) ? 5 : 2, is_uct(a) ? 6 : 3); }
            if (is_uct(a)) {
                { Cfg c = b; c.lag = 1; c.bias = -1; put("lagauto", c, losses(50), 6, 7, 100); }
                { Cfg c = b; c.lag = 2; c.prior = true; put("lagprior", c, flat(1.0), 5, 6); }
                { Cfg c = b; c.bias = -1; put("auto", c, basic(), 5, 6); }
                { Cfg c = b; c.bias = -1; put("auto0", c, flat(0.0), 5, 6); }
                { Cfg c = b; c.bias = -1; c.two_player = true; c.root_timestep = 1; put("auto2", c, basic(), 5, 6); }
                { Cfg c = b; c.bias = -1; put("autoneg", c, losses(50), 6, 7, 100); }
                { Cfg c = b; c.bias = -1; c.two_player = true; put("autoneg2", c, losses(50), 6, 7, 100); }
                { Cfg c = b; c.bias = -1; c.two_player = true; c.root_timestep = 1; put("autoopp", c, losses(-50), 6, 7, 100); }
                { Cfg c = b; c.bias = -1; c.prior = true; put("autoprior", c, losses(50), 5, 6, 100); }
                { Cfg c = b; c.bias = -1; c.pseudo = 3; put("autotiny", c, losses(1e-4), 6, 7, 1e-3); }
                { Cfg c = b; c.bias = 0; c.two_player = true; put("greedy2", c, losses(5), 5, 6, 10); }
                { Cfg c = b; c.bias = 0; put("greedy", c, basic(), 5, 6); }
                { Cfg c = b; c.bias = 5; c.pseudo = 2; put("pseudo", c, diamond(), 5, 6); }
                { Cfg c = b; c.eps_uct = 0.5; put("eps", c, basic(), 2, 3); }
                { Cfg c = b; c.eps_uct = 0.125; c.prior = true; put("epsp", c, diamond(), 2, 3); }
                { Cfg c = b; c.eps_uct = 1.0; put("eps1", c, basic(), 2, 3); }
                { Cfg c = b; c.prior = true; c.bias = -1; c.two_player = true; put("prior2", c, diamond(), 4, 5); }
                { Cfg c = b; c.prior = true; put("priorflat", c, flat(0.0), 4, 5); }
                { Cfg c = b; c.heuristic = false; c.bias = 2; put("noheur", c, steep(10), 5, 6, 10); }
            }
            if (a == PUCT) {
                { Cfg c = b; c.power = 0.25; put("pow", c, basic(), 5, 6); }
                { Cfg c = b; c.power = 1.0; c.prior = true; put("pow1", c, basic(), 4, 5); }
            }
            if (!is_uct(a)) {
                { Cfg c = b; c.epsilon = 0; put("eps0", c, basic(), 3, 4); }
                { Cfg c = b; c.epsilon = 0; c.temp = 0.01; put("eps0cold", c, steep(1.0), 3, 4); }
                { Cfg c = b; c.epsilon = 1.0; c.root_epsilon = 0.1; c.max_explore = 0.75; put("rooteps", c, basic(), 3, 4); }
                { Cfg c = b; c.epsilon = 0.0; c.root_epsilon = 0.4; put("rooteps0", c, diamond(), 2, 3); }
                { Cfg c = b; c.prior = true; c.prior_w = 0.6; put("mix", c, basic(), 2, 3); }
                { Cfg c = b; c.prior = true; c.prior_w = 1.0; c.epsilon = 0; put("mix0", c, basic(), 2, 3); }
                { Cfg c = b; c.decay = &decayed_temp_inv_sqrt; c.decay_root_scale = 4.0; put("decay", c, basic(), 3, 4); }
                { Cfg c = b; c.temp = 1e-3; c.epsilon = 0.05; put("ratio", c, steep(1e3), 2, 3, 1e3); }
                { Cfg c = b; c.default_q = 1.5; c.two_player = true; c.root_timestep = 1; put("defq", c, basic(), 3, 4); }
                { Cfg c = b; c.ttable = true; put("table", c, diamond(), 2, 3); }
            }
            if (a == DENTS || a == EST) {
                { Cfg c = b; c.use_dp = false; put("emp", c, basic(), 3, 4); }
                { Cfg c = b; c.vtemp = 0.3; c.vdecay = &decayed_temp_inv_log; c.vroot_scale = 5; put("vdecay", c, basic(), 3, 4); }
            }
            auto deep = [&](std::string n, Cfg c, Mdp m, int T, double scale = 8.0) { sc.push_back({n, c, m, 0, 0, scale, 1e-5, T}); };
            { Cfg c = b; deep("deep", c, basic(), 30); }
            { Cfg c = b; if (is_uct(a)) c.bias = -1; else { c.decay = &decayed_temp_inv_log; c.root_epsilon = 0.3; } deep("deepwide", c, wide(), 24); }
            { Cfg c = b; if (a != TENTS) c.lag = 1; c.prior = true; if (is_uct(a)) c.eps_uct = 0.25; else c.prior_w = 0.3; deep("deeplag", c, wide(), 16); }
            { Cfg c = b; if (is_uct(a)) c.bias = -1; else c.decay = &decayed_temp_inv_sqrt; deep("deeplong", c, basic(), is_uct(a) ? -1000 : -200); }
            { Cfg c = b; c.prior = true; c.mcts_mode = false; if (!is_uct(a)) c.prior_w = 0.3; deep("deeptall", c, tall(), 2); }
            { Cfg c = b; if (is_uct(a)) c.eps_uct = 0.125; deep("deepfan", c, fan(), 16); }
            for (auto& c : sc) add(c, p, 0, run_selection, "sel");
            options(a, p, run_selection, "sel", is_uct(a) ? 8 : 6, 8);
            { Cfg c = b; Case k{"fan", c, fan(), 0, 0, 8.0, 1e-5, a == UCT ? 30 : 8}; add(k, "C26", 0, run_selection, "out"); }
            { Cfg c = b; c.mcts_mode = false; Case k{"tall", c, tall(), 0, 0, 8.0, 1e-5, 2}; add(k, "C26", 0, run_selection, "out"); }
            { Cfg c = b; Case k{"outcomes", c, outcomes(), 2, 3}; add(k, "C26", 0, run_selection, "out"); }
            { Cfg c = b; Case k{"coin", c, coin(), 5, 8}; add(k, "C26", 0, run_selection, "out"); }
            { Cfg c = b; c.ttable = true; Case k{"coint", c, coin(), 5, 8}; add(k, "C26", 0, run_selection, "out"); }
            { Cfg c = b; c.mcts_mode = false; c.two_player = true; Case k{"coinf", c, coin(), 4, 6}; add(k, "C26", 0, run_selection, "out"); }
            { Cfg c = b; c.mcts_mode = false; Case k{"full", c, outcomes(), 1, 2}; add(k, "C26", 0, run_selection, "out"); }
            { Cfg c = b; c.ttable = true; c.two_player = true; Case k{"table", c, diamond(), 2, 3}; add(k, "C26", 0, run_selection, "out"); }
            // recommendation
            std::vector<Case> rc;
            auto putr = [&](std::string n, Cfg c, Mdp m, int T, int TT, double scale = 8.0) { rc.push_back({n, c, m, T, TT, scale}); };
            { Cfg c = b; putr("basic", c, basic(), 3, 4); }
            { Cfg c = b; c.most_visited = true; putr("most", c, basic(), 3, 4); }
            { Cfg c = b; c.most_visited = true; c.two_player = true; c.rec_threshold = 2; putr("most2", c, diamond(), 3, 4); }
            { Cfg c = b; c.two_player = true; putr("two", c, diamond(), 3, 4); }
            { Cfg c = b; c.two_player = true; c.root_timestep = 1; putr("two1", c, basic(), 3, 4); }
            { Cfg c = b; c.prior = true; putr("prior", c, basic(), 3, 4); }
            { Cfg c = b; putr("flat", c, flat(1.0), 3, 4); }
            { Cfg c = b; Mdp m = basic(); m.collide = true; putr("collide", c, m, 3, 4); }
            { Cfg c = b; c.heuristic = false; putr("flat0", c, flat(0.0), 3, 4); }
            { Cfg c = b; c.mcts_mode = false; putr("full", c, diamond(), is_uct(a) ? 3 : 2, 3); }
            { Cfg c = b; c.max_depth = 1; putr("depth1", c, basic(), 3, 4); }
            { Cfg c = b; putr("neg", c, steep(-100.0), 3, 4, 100); }
            if (!is_uct(a)) {
                for (int th : {1, 2, 3}) { Cfg c = b; c.rec_threshold = th; putr("thr" + std::to_string(th), c, basic(), 3, 4); }
                { Cfg c = b; c.rec_threshold = 2; c.two_player = true; putr("thr2p", c, diamond(), 3, 4); }
                { Cfg c = b; c.default_q = 4.0; c.rec_threshold = 2; putr("defq", c, basic(), 3, 4); }
            }
            if (a == DENTS || a == EST) {
                for (int th : {0, 2}) { Cfg c = b; c.use_dp = false; c.rec_threshold = th; putr("emp" + std::to_string(th), c, basic(), 3, 4); }
                { Cfg c = b; c.use_dp = false; c.two_player = true; putr("emp2p", c, diamond(), 3, 4); }
            }
            auto deepr = [&](std::string n, Cfg c, Mdp m, int T, double scale = 8.0) { rc.push_back({n, c, m, 0, 0, scale, 1e-5, T}); };
            { Cfg c = b; c.rec_threshold = 5; deepr("deep", c, basic(), 24); }
            { Cfg c = b; c.two_player = true; if (!is_uct(a)) { c.use_dp = false; c.rec_threshold = 3; } deepr("deepwide", c, wide(), 20); }
            { Cfg c = b; c.most_visited = true; deepr("deepmost", c, wide(), 20); }
            { Cfg c = b; c.rec_threshold = 20; deepr("deeplong", c, basic(), -1000); }
            { Cfg c = b; c.most_visited = true; c.two_player = true; deepr("deeplongm", c, diamond(), -1000); }
            { Cfg c = b; deepr("deepfan", c, fan(), 24); }
            { Cfg c = b; c.mcts_mode = false; c.two_player = true; deepr("deeptall", c, tall(), 3); }
            for (auto& c : rc) add(c, "C16", 0, run_recommend, "rec");
            options(a, "C16", run_recommend, "rec", 16, 4);
            // evaluation
            { Cfg c = b; Case k{"basic", c, basic(), is_uct(a) ? 3 : 2, is_uct(a) ? 5 : 3}; add(k, a == UCT || a == MENTS ? "C19 C26" : "C19", 0, run_eval, "eval"); }
            { Cfg c = b; c.two_player = true; c.mcts_mode = false; c.max_depth = 2; Case k{"two", c, diamond(), is_uct(a) ? 2 : 1, 2}; add(k, a == UCT || a == MENTS ? "C19 C26" : "C19", 0, run_eval, "eval"); }
            { Cfg c = b; c.most_visited = true; c.ttable = true; Case k{"table", c, diamond(), is_uct(a) ? 3 : 2, 3}; add(k, a == UCT || a == MENTS ? "C19 C26" : "C19", 0, run_eval, "eval"); }
            { Cfg c = b; c.max_depth = 0; Case k{"depth0", c, basic(), 1, 2}; add(k, "C19", 0, run_eval, "eval"); }
            { Cfg c = b; Case k{"deep", c, diamond(), 0, 0, 8.0, 1e-5, 10}; add(k, "C19", 0, run_eval, "eval"); }
            // reproducibility
            { Cfg c = b; Case k{"basic", c, basic(), 0, 0}; add(k, "C22", 0, run_repro, "rep"); }
            { Cfg c = b; c.mcts_mode = false; c.ttable = true; c.tmutexes = 3; Case k{"table", c, diamond(), 0, 0}; add(k, "C22", 0, run_repro, "rep"); }
            { Cfg c = b; c.prior = true; c.two_player = true; if (is_uct(a)) { c.eps_uct = 0.3; c.pseudo = 1; } else { c.prior_w = 0.5; c.decay = &decayed_temp_inv_sqrt; } Case k{"prior", c, diamond(), 0, 0}; add(k, "C22", 0, run_repro, "rep"); }
            { Cfg c = b; c.heuristic = false; c.most_visited = true; c.max_depth = 3; Case k{"most", c, basic(), 0, 0}; add(k, "C22", 0, run_repro, "rep"); }
            // mirror
            std::vector<Case> mc;
            auto putm = [&](std::string n, Cfg c, Mdp m, int T, int TT) { c.two_player = true; mc.push_back({n, c, m, T, TT, 8.0}); };
            { Cfg c = b; putm("basic", c, basic(), 3, 4); }
            { Cfg c = b; c.mcts_mode = false; putm("full", c, diamond(), 2, 3); }
            { Cfg c = b; c.heuristic = false; putm("noheur", c, diamond(), 3, 4); }
            { Cfg c = b; c.prior = true; putm("prior", c, basic(), 3, 4); }
            { Cfg c = b; c.ttable = true; putm("table", c, diamond(), 3, 4); }
            { Cfg c = b; c.max_depth = 1; c.most_visited = true; putm("depth1", c, basic(), 3, 4); }
            { Cfg c = b; putm("chain", c, chain(), 6, 10); }
            if (is_uct(a)) { Cfg c = b; c.bias = -1; c.pseudo = 2; putm("auto", c, basic(), 4, 5); }
            else {
                { Cfg c = b; c.default_q = 1.5; c.rec_threshold = 2; putm("defq", c, basic(), 3, 4); }
                { Cfg c = b; c.prior = true; c.prior_w = 0.5; c.decay = &decayed_temp_inv_sqrt; putm("mix", c, basic(), 3, 4); }
                { Cfg c = b; c.epsilon = 0; c.temp = 0.3; putm("eps0", c, diamond(), 3, 4); }
            }
            if (a == DENTS || a == EST) { Cfg c = b; c.use_dp = false; putm("emp", c, basic(), 3, 4); }
            { Cfg c = b; c.two_player = true; c.mcts_mode = false; c.max_depth = 3; mc.push_back({"deep", c, ring(), 0, 0, 8.0, 1e-5, 14}); }
            { Cfg c = b; c.two_player = true; c.prior = true; mc.push_back({"deepwide", c, wide(), 0, 0, 8.0, 1e-5, 14}); }
            for (auto& c : mc) add(c, "C15", 0, run_mirror, "mir");
            options(a, "C15", run_mirror, "mir", 6, 4);
        }
    }
}

int main(int argc, char** argv) {
    registry();
    return seq::main_(argc, argv);
}
