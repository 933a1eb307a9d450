// Reference model of the search algorithms: plain functions of the definitions in the documentation, applied to the
// sequence of trials (paths).  Shares no code with the library.
#pragma once
#include "toy.h"
#include <cmath>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace ref {
    using toy::Cfg; using toy::Mdp; using toy::Act; using toy::Out;

    struct C;
    struct D {
        int s, depth, t;
        long visits = 0;
        double h = 0;                                  // heuristic value
        bool sink = false;
        std::vector<double> rets;                      // returns-to-go of the trials backed up here
        double soft = 0;  long nb = 0;                 // soft value; leaf visits + backups
        double dp = 0;    long dpn = 1;
        double ent = 0;   long entn = 0;
        std::map<int, std::shared_ptr<C>> kids;
    };
    struct C {
        int s, a, depth, t;
        long visits = 0, nb = 0, dpn = 0;
        std::vector<double> rets;
        double soft = 0, dp = 0, ent = 0;
        std::map<int, std::shared_ptr<D>> kids;
    };
    struct Step { int a, o; };
    typedef std::vector<Step> Path;

    struct Expect { double v; bool any = false; };     // expected printed numbers by name

    class Model {
        public:
            Cfg cfg; Mdp* mdp;
            std::shared_ptr<D> root;
            std::map<std::pair<int,int>, std::shared_ptr<D>> table;

            Model(const Cfg& c, Mdp* m) : cfg(c), mdp(m) { root = make(c.root_state < 0 ? mdp->init : c.root_state, 0, c.root_timestep); }

            bool opp(int t) const { return cfg.two_player && (t & 1); }
            double sg(int t) const { return opp(t) ? -1.0 : 1.0; }
            const std::vector<Act>& acts(const D& d) const { return mdp->st[d.s].acts; }
            bool leaf(const D& d) const { return d.sink || d.depth >= cfg.max_depth; }
            bool is_ments() const { return !toy::is_uct(cfg.algo); }

            // ---- construction
            std::shared_ptr<D> make(int s, int depth, int t) {
                auto d = std::make_shared<D>();
                d->s = s; d->depth = depth; d->t = t;
                d->sink = mdp->st[s].sink;
                d->h = (cfg.heuristic && !d->sink) ? mdp->sign * mdp->st[s].h : 0.0;
                d->soft = d->h; d->dp = d->h;
                if (toy::is_uct(cfg.algo) && cfg.heuristic) d->visits = cfg.pseudo;
                if (cfg.algo == toy::DENTS) { d->entn = 1; d->ent = sg(t) * entropy(policy(*d, nullptr)); }
                return d;
            }
            std::shared_ptr<C> make_c(D& d, int a) {
                auto c = std::make_shared<C>();
                c->s = d.s; c->a = a; c->depth = d.depth; c->t = d.t;
                c->soft = cfg.default_q;
                return c;
            }

            // ---- temperatures
            static double decayed(thts::TempDecayFnPtr f, double init, double mn, long visits, double scale) {
                if (f == nullptr) return init;
                double m = scale * (double) visits, k;
                if (f == &thts::decayed_temp_inv_sqrt) k = 1.0 / std::sqrt(1.0 + m);
                else if (f == &thts::decayed_temp_inv_log) k = 1.0 / std::log(std::exp(1.0) + m);
                else k = (1.0 + std::exp(-5.0)) / (1.0 + std::exp(m - 5.0));
                return std::max(mn, init * k);
            }
            double temp(const D& d) const {
                double sc = (d.depth == 0 && cfg.decay_root_scale > 0) ? cfg.decay_root_scale : cfg.decay_scale;
                return decayed(cfg.decay, cfg.temp, cfg.decay_min, d.visits, sc);
            }
            double vtemp(const D& d) const {
                double sc = (d.depth == 0 && cfg.vroot_scale > 0) ? cfg.vroot_scale : cfg.vscale;
                return decayed(cfg.vdecay, cfg.vtemp, cfg.vmin, d.visits, sc);
            }
            double vtemp(const C& c) const { return decayed(cfg.vdecay, cfg.vtemp, cfg.vmin, c.visits, cfg.vscale); }

            // ---- values
            static double mean(const std::vector<double>& v) {
                if (v.empty()) return 0.0;
                double x = 0; for (double y : v) x += y; return x / v.size();
            }
            double uct_value(const D& d) const {
                if (!cfg.heuristic) return mean(d.rets);
                if (cfg.pseudo + d.rets.size() == 0) return d.h;
                double x = cfg.pseudo * d.h; for (double y : d.rets) x += y;
                return x / (cfg.pseudo + d.rets.size());
            }
            double emp_value(const D& d) const { double x = d.h; for (double y : d.rets) x += y; return x / (1.0 + d.rets.size()); }
            double val(const D& d) const { return cfg.use_dp ? d.dp : emp_value(d); }      // DENTS, EST
            double val(const C& c) const { return cfg.use_dp ? c.dp : mean(c.rets); }
            double prior(const D& d, int a) const {
                for (size_t i = 0; i < acts(d).size(); i++) if (acts(d)[i].id == a) return mdp->st[d.s].prior[i];
                return 0;
            }
            static double logw(double w) { if (w >= 1e32) return 32; if (w > 1e-32) return std::log(w); return -32; }
            double q(const D& d, int a) const {
                double o = sg(d.t);
                auto it = d.kids.find(a);
                if (it != d.kids.end()) {
                    const C& c = *it->second;
                    if (cfg.algo == toy::DENTS) return o * (val(c) + vtemp(d) * c.ent);
                    if (cfg.algo == toy::EST) return o * val(c);
                    return o * c.soft;
                }
                if (cfg.prior) {
                    double off = 0;
                    if (cfg.shift) {
                        double m = 0; for (double w : mdp->st[d.s].prior) m += logw(w);
                        off = cfg.shift_offset - m / mdp->st[d.s].prior.size();
                    }
                    return logw(prior(d, a)) + off;
                }
                return o * cfg.default_q;
            }
            // tau * log sum w exp(q/tau) with its policy; parent: RENTS weights
            void boltzmann(const D& d, const std::map<int,double>* parent, std::map<int,double>& pi, double& soft) const {
                double tau = temp(d), mx = -1e300;
                for (auto& a : acts(d)) mx = std::max(mx, q(d, a.id) / tau);
                double sum = 0;
                for (auto& a : acts(d)) {
                    double w = std::exp(q(d, a.id) / tau - mx);
                    if (parent) { auto it = parent->find(a.id); w *= it == parent->end() ? 0.0 : it->second; }
                    pi[a.id] = w; sum += w;
                }
                if (cfg.algo == toy::RENTS && sum < 1e-16) {
                    for (auto& a : acts(d)) pi[a.id] = 1.0 / acts(d).size();
                    sum = 1.0;
                }
                for (auto& p : pi) p.second /= sum;
                soft = tau * (std::log(sum) + mx);
            }
            void sparsemax(const D& d, std::map<int,double>& pi, double& soft) const {
                double tau = temp(d);
                std::vector<double> v;
                for (auto& a : acts(d)) v.push_back(q(d, a.id) / tau);
                std::sort(v.rbegin(), v.rend());
                // largest support k with 1 + k v_k > sum of the k largest
                double sum = 0, ksum = 0; size_t k = 0;
                for (size_t i = 0; i < v.size(); i++) { sum += v[i]; if (1.0 + (i + 1.0) * v[i] > sum) { k = i + 1; ksum = sum; } }
                double thr = (ksum - 1.0) / k;
                double tot = 0;
                for (auto& a : acts(d)) { double w = std::max(0.0, q(d, a.id) / tau - thr); pi[a.id] = w; tot += w; }
                if (tot < 1e-16) { for (auto& p : pi) p.second = 1.0 / acts(d).size(); tot = 1; }
                for (auto& p : pi) p.second /= tot;
                double sp = 0.5;
                for (size_t i = 0; i < k; i++) sp += 0.5 * (v[i] * v[i] - thr * thr);
                soft = tau * sp;
            }
            void solve(const D& d, const std::map<int,double>* parent, std::map<int,double>& pi, double& soft) const {
                if (acts(d).empty()) { soft = 0; return; }
                if (cfg.algo == toy::TENTS) sparsemax(d, pi, soft);
                else boltzmann(d, cfg.algo == toy::RENTS ? parent : nullptr, pi, soft);
            }
            // search policy of the MENTS family (visits as they are now)
            std::map<int,double> policy(const D& d, const std::map<int,double>* parent) const {
                std::map<int,double> pi; double soft;
                solve(d, parent, pi, soft);
                double eps = cfg.epsilon;
                if (d.depth == 0 && cfg.root_epsilon > 0) eps = cfg.root_epsilon;
                double lam = 0;
                if (eps > 0) lam = d.visits == 0 ? cfg.max_explore : std::min(cfg.max_explore, eps / std::log(d.visits + 1.0));
                double n = (double) acts(d).size();
                for (auto& p : pi) {
                    double x = p.second;
                    if (cfg.prior_w > 0) {
                        double lt = cfg.prior_w / std::log(d.visits + 3.0);
                        x = (1 - lt) * x + lt * prior(d, p.first);
                    }
                    p.second = (1 - lam) * x + lam / n;
                    if (p.second < 1e-16) p.second = 0;
                }
                return pi;
            }
            static double entropy(const std::map<int,double>& pi) {
                double e = 0; for (auto& p : pi) if (p.second > 0) e -= p.second * std::log(p.second); return e;
            }

            // ---- trials
            double reward(int s, int a, int o) const {
                const Act* x = mdp->find(s, a);
                double r = x->r;
                for (auto& y : x->outs) if (y.s == o) { r += y.bonus; break; }
                return mdp->sign * r;
            }
            std::shared_ptr<D> child(C& c, int o, bool* fresh = nullptr) {
                auto it = c.kids.find(o);
                if (it != c.kids.end()) return it->second;
                if (fresh) *fresh = true;
                std::shared_ptr<D> d;
                if (cfg.ttable) {
                    auto k = std::make_pair(c.t, o);
                    if (table.count(k)) d = table[k];
                    else d = table[k] = make(o, c.depth + 1, c.t + 1);
                } else d = make(o, c.depth + 1, c.t + 1);
                c.kids[o] = d;
                return d;
            }
            // why the path is not one a trial may take (empty: fine)
            std::string illegal(const Path& p) const {
                const D* d = root.get();
                std::shared_ptr<D> hold;
                bool fresh = false; int s = d->s, depth = 0;
                const D* cur = d;
                for (size_t i = 0; i < p.size(); i++) {
                    if (mdp->st[s].sink) return "continues past a sink state";
                    if (depth >= cfg.max_depth) return "continues past the maximum depth";
                    if (cfg.mcts_mode && fresh) return "continues past a node created in the same trial";
                    const Act* a = mdp->find(s, p[i].a);
                    if (!a) return "takes an illegal action";
                    bool ok = false; for (auto& o : a->outs) if (o.s == p[i].o && o.p > 0) ok = true;
                    if (!ok) return "follows an impossible outcome";
                    const D* nx = nullptr;
                    if (cur) {
                        auto it = cur->kids.find(p[i].a);
                        if (it != cur->kids.end()) { auto jt = it->second->kids.find(p[i].o); if (jt != it->second->kids.end()) nx = jt->second.get(); }
                    }
                    if (!nx) fresh = true;       // a new child of the chance node
                    cur = nx;
                    // a shared node that already exists behind another parent
                    if (!nx && cfg.ttable) { auto it = table.find({depth + cfg.root_timestep, p[i].o}); if (it != table.end()) cur = it->second.get(); }
                    s = p[i].o; depth++;
                }
                if (!mdp->st[s].sink && depth < cfg.max_depth && !(cfg.mcts_mode && fresh)) return "ends before a leaf";
                return "";
            }
            void visit(D& d) {
                d.visits++;
                if (leaf(d)) { d.nb++; d.dpn++; d.entn++; }
            }
            void apply(const Path& p) {
                std::vector<std::shared_ptr<D>> ds; std::vector<std::shared_ptr<C>> cs; std::vector<double> rs;
                std::vector<std::map<int,double>> dist;
                auto cur = root;
                for (auto& st : p) {
                    visit(*cur);
                    if (is_ments()) dist.push_back(policy(*cur, dist.empty() ? nullptr : &dist.back()));
                    if (!cur->kids.count(st.a)) cur->kids[st.a] = make_c(*cur, st.a);
                    auto c = cur->kids[st.a];
                    c->visits++;
                    auto nx = child(*c, st.o);
                    ds.push_back(cur); cs.push_back(c); rs.push_back(reward(cur->s, st.a, st.o));
                    cur = nx;
                }
                visit(*cur);
                Trial t{ds, cs, rs, dist, cur->h};
                if (cfg.lag == 0) { complete(t); return; }
                pending.push_back(t);
                if (cfg.lag > 0) { if ((int) pending.size() > cfg.lag) { complete(pending[0]); pending.erase(pending.begin()); } }
                else if (pending.size() == 2) { complete(pending[1]); complete(pending[0]); pending.clear(); }
            }
            struct Trial {
                std::vector<std::shared_ptr<D>> ds; std::vector<std::shared_ptr<C>> cs; std::vector<double> rs;
                std::vector<std::map<int,double>> dist; double end;
            };
            std::vector<Trial> pending;                // selected, not yet backed up
            void complete(const Trial& t) {
                double ret = t.end;
                for (int i = (int) t.cs.size() - 1; i >= 0; i--) {
                    ret += t.rs[i];
                    backup(*t.cs[i], ret);
                    backup(*t.ds[i], ret, i > 0 && is_ments() ? &t.dist[i-1] : nullptr);
                }
            }
            void backup(C& c, double ret) {
                c.rets.push_back(ret); c.nb++;
                if (!is_ments()) return;
                double r = mdp->sign * mdp->find(c.s, c.a)->r;
                auto wmean = [&](auto w, auto v) {
                    double a = 0, b = 0;
                    for (auto& k : c.kids) { double x = (double) w(*k.second); if (x <= 0) continue; a += x * v(*k.second); b += x; }
                    return b > 0 ? a / b : 0.0;
                };
                bool dpalg = cfg.algo == toy::DBMENTS || ((cfg.algo == toy::DENTS || cfg.algo == toy::EST) && cfg.use_dp);
                if (cfg.algo == toy::DENTS) c.ent = wmean([](D& d) { return d.entn; }, [](D& d) { return d.ent; });
                if (dpalg) { c.dp = r + wmean([](D& d) { return d.dpn; }, [](D& d) { return d.dp; }); c.dpn++; }
                if (cfg.algo == toy::DENTS) c.soft = val(c) + vtemp(c) * c.ent;
                else if (cfg.algo != toy::EST) c.soft = r + wmean([](D& d) { return d.nb; }, [](D& d) { return d.soft; });
            }
            void backup(D& d, double ret, const std::map<int,double>* parent) {
                d.rets.push_back(ret); d.nb++;
                if (!is_ments()) return;
                bool dpalg = cfg.algo == toy::DBMENTS || ((cfg.algo == toy::DENTS || cfg.algo == toy::EST) && cfg.use_dp);
                if (cfg.algo == toy::DENTS) {
                    auto pi = policy(d, nullptr);
                    double e = sg(d.t) * entropy(pi);
                    for (auto& k : d.kids) e += pi[k.first] * k.second->ent;
                    d.ent = e; d.entn++;
                }
                if (dpalg) {
                    double b = -INFINITY;
                    for (auto& k : d.kids) if (k.second->dpn > 0) b = std::max(b, sg(d.t) * k.second->dp);
                    d.dp = sg(d.t) * b; d.dpn++;
                }
                if (cfg.algo == toy::DENTS) d.soft = val(d) + vtemp(d) * d.ent;
                else if (cfg.algo != toy::EST) {
                    std::map<int,double> pi; double s; solve(d, parent, pi, s);
                    d.soft = sg(d.t) * s;
                }
            }

            // ---- what the library prints for a node
            std::map<std::string,double> printed(const D& d) const {
                switch (cfg.algo) {
                    case toy::UCT: case toy::PUCT: return {{"vl", uct_value(d)}};
                    case toy::MENTS: case toy::RENTS: case toy::TENTS: return {{"vl", d.soft}, {"temp", temp(d)}};
                    case toy::DBMENTS: return {{"vl", d.dp}, {"temp", temp(d)}, {"soft_val", d.soft}};
                    case toy::DENTS: return {{"vl", val(d)}, {"temp", temp(d)}, {"entrpy", d.ent}, {"val_temp", vtemp(d)}, {"soft_val", d.soft}};
                    default: return {{"vl", val(d)}};
                }
            }
            std::map<std::string,double> printed(const C& c) const {
                switch (cfg.algo) {
                    case toy::UCT: case toy::PUCT: return {{"vl", mean(c.rets)}};
                    case toy::MENTS: case toy::RENTS: case toy::TENTS: return {{"vl", c.soft}};
                    case toy::DBMENTS: return {{"vl", c.dp}, {"soft_val", c.soft}};
                    case toy::DENTS: return {{"vl", val(c)}, {"entrpy", c.ent}, {"val_temp", vtemp(c)}, {"soft_val", c.soft}};
                    default: return {{"vl", val(c)}};
                }
            }
    };
}
