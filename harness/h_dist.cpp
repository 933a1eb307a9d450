// Sampling from distributions (C17), arg-max (C18), value semantics of states and actions (C21), contexts (C24) and
// random managers (C22): exhaustive enumeration of small inputs, update sequences and draws.
#include "seq.h"

#include "distributions/categorical_distribution.h"
#include "distributions/discrete_uniform_distribution.h"
#include "distributions/mixed_distribution.h"
#include "helper_templates.h"
#include "thts_env.h"
#include "thts_env_context.h"
#include "thts_manager.h"
#include "thts_types.h"

#include <climits>
#include <memory>

using namespace thts;
using seq::Run; using seq::Vals; using seq::Dist; using seq::Measure;
using std::make_shared; using std::shared_ptr; using std::string; using std::unordered_map; using std::vector;

namespace {
    // draws come from a list; what is missing gets a default value and is reported
    struct ListRand : public RandManager {
        const Vals& v; size_t pos = 0; bool need = false; int n = 0; long extra = 0; string bad;
        ListRand(const Vals& v) : RandManager(1), v(v) {}
        int get_rand_int(int lo, int hi) override {
            if (hi <= lo) { bad = "a random integer was requested from an empty range"; return lo; }
            if (pos >= v.size()) { if (!need) { need = true; n = hi - lo; } return lo + (int) (extra++ % (hi - lo)); }
            int i = (int) v[pos++];
            return lo + (i < hi - lo ? i : 0);
        }
        double get_rand_uniform() override {
            if (pos >= v.size()) { if (!need) { need = true; n = 0; } return fmod(0.5 + 0.381 * extra++, 1.0); }
            return v[pos++];
        }
    };
    template <class F> seq::Box box_of(F fn, Run& r) {
        return [fn, &r](const Vals& v) {
            ListRand rng(v); seq::Ans a;
            r.trans();
            try { a.out = fn(rng); a.need = rng.need; a.n = rng.n; }
            catch (const std::exception& e) { a.out = string("exception: ") + e.what(); a.need = rng.need; a.n = rng.n; }
            if (!rng.bad.empty()) { a.out = rng.bad; a.need = false; }
            return a;
        };
    }
    typedef std::map<int,double> W;
    string show(const W& w) {
        std::ostringstream o; o.precision(17); o << "{";
        for (auto& p : w) o << " " << p.first << ":" << p.second;
        o << " }"; return o.str();
    }
    double total(const W& w) { double t = 0; for (auto& p : w) t += p.second; return t; }
    Dist shares(const W& w) {
        Dist d; double t = total(w);
        for (auto& p : w) if (p.second > 0) d[std::to_string(p.first)] += p.second / t;
        return d;
    }
    // all sums of subsets of the normalised weights and their neighbours
    vector<double> boundaries(const W& w) {
        vector<double> x; double t = total(w);
        vector<double> v; for (auto& p : w) v.push_back(p.second / t);
        if (v.size() > 5) v.resize(5);
        for (int m = 1; m < (1 << v.size()); m++) {
            double s = 0; for (size_t i = 0; i < v.size(); i++) if (m >> i & 1) s += v[i];
            x.push_back(s); x.push_back(std::nextafter(s, 0.0)); x.push_back(std::nextafter(s, 2.0));
        }
        x.push_back(std::ldexp(1.0, -53)); x.push_back(5e-324);
        return x;
    }
    // judges a box against one of several admissible weightings
    void judge(Run& r, const string& what, seq::Box box, const vector<W>& admissible, bool bounds = true) {
        Measure ms(box, 16, 1e-9, 8);
        if (bounds) ms.extra = boundaries(admissible.back());
        r.current(what);
        Dist got = ms.dist(); r.exec(); r.check();
        for (const W& w : admissible) {
            Dist want = shares(w);
            bool ok = seq::close_to(got, want, 1e-6);
            for (auto& s : ms.seen) if (!want.count(s)) ok = false;
            if (ok) return;
        }
        string seen; for (auto& s : ms.seen) seen += " " + s;
        r.fail("%s: drawn with probabilities %s, expected %s; outcomes over all draws:%s", what.c_str(), seq::show(got).c_str(),
               seq::show(shares(admissible.back())).c_str(), seen.c_str());
    }
    template <class T> shared_ptr<unordered_map<T,double>> umap(const W& w, std::function<T(int)> key) {
        auto m = make_shared<unordered_map<T,double>>();
        for (auto& p : w) m->insert_or_assign(key(p.first), p.second);
        return m;
    }
    int ik(int i) { return i; }
    string sk(int i) { return "k" + std::to_string(i); }
    string sval(const string& s) { return s.substr(1); }

    enum Method { HELPER, HELPER_NORM, DIRECT, ALIAS, STR_DIRECT, STR_ALIAS, STATE_DIRECT };
    void one(Run& r, int method, const W& w) {
        if (!(total(w) > 0)) return;
        static const char* nm[] = {"sample_from_distribution", "sample_from_distribution(normalised)", "categorical", "categorical(alias)", "categorical<string>", "categorical<string>(alias)", "categorical<State>"};
        string what = string(nm[method]) + " " + show(w);
        r.state();
        switch (method) {
            case HELPER: { auto m = umap<int>(w, ik); auto ref = *m;
                judge(r, what, box_of([m](RandManager& g) { return std::to_string(helper::sample_from_distribution(*m, g, false)); }, r), {w});
                if (*m != ref) r.fail("%s: sampling changed the distribution", what.c_str());
                break; }
            case HELPER_NORM: {
                W n = w; double t = total(w); for (auto& p : n) p.second /= t;
                auto m = umap<int>(n, ik);
                judge(r, what, box_of([m](RandManager& g) { return std::to_string(helper::sample_from_distribution(*m, g)); }, r), {n});
                // weights that are no probabilities are reported
                auto big = umap<int>(w, ik); for (auto& p : *big) p.second = p.second / t * 1.5;
                seq::Box b = box_of([big](RandManager& g) { return std::to_string(helper::sample_from_distribution(*big, g)); }, r);
                seq::Ans a = b({0.0}); if (a.out.compare(0, 9, "exception")) r.fail("%s: weights that sum to 1.5 were accepted as probabilities", what.c_str());
                break; }
            case DIRECT: case ALIAS: {
                auto c = make_shared<CategoricalDistribution<int>>(umap<int>(w, ik), method == ALIAS);
                judge(r, what, box_of([c](RandManager& g) { return std::to_string(c->sample(g)); }, r), {w}, method == DIRECT);
                break; }
            case STR_DIRECT: case STR_ALIAS: {
                auto c = make_shared<CategoricalDistribution<string>>(umap<string>(w, sk), method == STR_ALIAS, 2);
                judge(r, what, box_of([c](RandManager& g) { return sval(c->sample(g)); }, r), {w}, method == STR_DIRECT);
                break; }
            case STATE_DIRECT: {
                typedef shared_ptr<const State> S;
                auto c = make_shared<CategoricalDistribution<S>>(umap<S>(w, [](int i) { return S(make_shared<const IntState>(i)); }), false);
                judge(r, what, box_of([c](RandManager& g) { return std::to_string(std::static_pointer_cast<const IntState>(c->sample(g))->state); }, r), {w});
                break; }
        }
    }
    void all_weights(Run& r, int method, int n, const vector<double>& vals) {
        vector<int> ix(n, 0);
        while (true) {
            W w; for (int i = 0; i < n; i++) w[i * 7 - 3] = vals[ix[i]];
            one(r, method, w);
            int k = 0; while (k < n && ++ix[k] == (int) vals.size()) ix[k++] = 0;
            if (k == n) break;
        }
    }
    void extreme_weights(Run& r, int method) {
        vector<vector<double>> l{
            {1e-12, 1e-12}, {1e-13}, {1e-20, 3e-20}, {1e-300, 1e-300, 2e-300}, {1e300, 1e300}, {1e300, 1}, {1e-9, 1}, {1e15, 1, 0}, {0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1},
            {0, 0, 0, 0, 1}, {1, 0, 0, 0, 0}, {0.7, 0.1, 0.1, 0.1}, {1.0 / 3, 1.0 / 3, 1.0 / 3}, {1.0 / 7, 2.0 / 7, 4.0 / 7}, {0.3, 0.3, 0.3, 0.1, 0}, {1e-5, 1e5}, {3, 3, 3, 3, 3, 3},
            {0.05, 0.15, 0.2, 0.25, 0.35}, {1, 2, 3, 4, 5, 6, 7}, {0.999999, 1e-6}, {2e-308, 2e-308}, {1, 1e-17}, {0.6, 0.4 - 1e-13},
        };
        for (auto& v : l) for (int rot = 0; rot < (int) v.size(); rot++) {
            W w; for (size_t i = 0; i < v.size(); i++) w[(int) ((i + rot) % v.size()) * 11] = v[i];
            one(r, method, w);
        }
    }
    // sequences of updates on a categorical distribution
    struct Op { int key; double weight; W all; };
    vector<Op> ops() {
        vector<Op> o;
        for (int k : {0, 1, 2, 5}) for (double w : {0.0, 1.0, 3.0}) o.push_back({k, w, {}});
        o.push_back({0, 0, W{{0, 2.0}}}); o.push_back({0, 0, W{{0, 1.0}, {1, 1.0}, {7, 2.0}}}); o.push_back({0, 0, W{{3, 1.0}, {4, 3.0}}});
        return o;
    }
    void updates(Run& r, bool alias, int freq, const W& init, int depth) {
        vector<Op> O = ops();
        vector<int> chosen;
        std::function<void()> rec = [&]() {
            // replay the sequence on a fresh distribution
            W w = init;
            auto c = make_shared<CategoricalDistribution<int>>(umap<int>(w, ik), alias, freq);
            vector<W> versions{w}; int pending = 0;
            std::ostringstream what; what << (alias ? "alias(" + std::to_string(freq) + ") " : "direct ") << show(init);
            bool skip = false;
            for (int i : chosen) {
                const Op& o = O[i];
                if (o.all.empty()) { w[o.key] = o.weight; what << " update(" << o.key << "," << o.weight << ")"; c->update(o.key, o.weight); pending++; }
                else { w = o.all; what << " update(" << show(w) << ")"; c->update(umap<int>(w, ik)); pending = 0; versions.clear(); }
                versions.push_back(w);
                if (!(total(w) > 0)) skip = true;               // no distribution at the moment: nothing is claimed below
            }
            // at the latest after freq updates a draw follows weights of at most freq-1 updates ago
            size_t keep = alias ? std::min<size_t>(versions.size(), std::max(1, std::min(pending + 1, freq))) : 1;
            vector<W> adm(versions.end() - keep, versions.end());
            vector<W> pos; for (auto& a : adm) if (total(a) > 0) pos.push_back(a);
            r.state();
            if (total(w) > 0 && pos.size() == adm.size())
                judge(r, what.str(), box_of([c](RandManager& g) { return std::to_string(c->sample(g)); }, r), pos, !alias);
            (void) skip;
            if ((int) chosen.size() == depth) return;
            for (int i = 0; i < (int) O.size(); i++) { chosen.push_back(i); rec(); chosen.pop_back(); }
        };
        rec();
    }
    void uniform_mixed(Run& r) {
        for (int n = 1; n <= 6; n++) for (int dup = 0; dup < 2; dup++) {
            auto keys = make_shared<vector<int>>(); W w;
            for (int i = 0; i < n; i++) { int k = dup && i ? 1 : i; keys->push_back(k); w[k] += 1; }
            auto d = make_shared<DiscreteUniformDistribution<int>>(keys);
            r.state();
            judge(r, "uniform over " + show(w), box_of([d](RandManager& g) { return std::to_string(d->sample(g)); }, r), {w});
        }
        vector<vector<double>> mix{{1.0}, {0.5, 0.5}, {0.25, 0.75}, {0.0, 1.0}, {1.0 / 3, 2.0 / 3}, {0.2, 0.3, 0.5}, {0.1, 0.0, 0.9}, {1.0 / 3, 1.0 / 3, 1.0 / 3}, {0.7, 0.1, 0.2}};
        vector<W> ws{W{{0, 1}}, W{{0, 1}, {1, 3}}, W{{1, 2}, {2, 2}, {3, 0}}, W{{5, 0.3}, {6, 0.7}}};
        // kinds of components: 0 direct, 1 alias, 2 uniform
        for (auto& m : mix) {
            int n = (int) m.size(); int C = (n == 3 && !r.thorough() ? 2 : (int) ws.size()) * 3, tot = 1; for (int i = 0; i < n; i++) tot *= C;
            for (int code = 0; code < tot; code++) {
                auto dd = make_shared<MixedDistributionDistr<int>>(); W w; std::ostringstream what; what << "mixed";
                int c = code;
                for (int i = 0; i < n; i++, c /= C) {
                    W cw = ws[c % C / 3]; int kind = c % C % 3; shared_ptr<Distribution<int>> comp;
                    if (kind == 2) { auto ks = make_shared<vector<int>>(); for (auto& p : cw) { ks->push_back(p.first); p.second = 1; } comp = make_shared<DiscreteUniformDistribution<int>>(ks); }
                    else comp = make_shared<CategoricalDistribution<int>>(umap<int>(cw, ik), kind == 1);
                    (*dd)[comp] = m[i];
                    what << " " << m[i] << "*" << "dau"[kind] << show(cw);
                    for (auto& p : cw) w[p.first] += m[i] * p.second / total(cw);
                }
                auto d = make_shared<MixedDistribution<int>>(dd);
                r.state();
                judge(r, what.str(), box_of([d](RandManager& g) { return std::to_string(d->sample(g)); }, r), {w});
            }
        }
        // a mixture of mixtures
        for (double p : {0.0, 0.25, 1.0}) {
            auto inner = make_shared<MixedDistributionDistr<int>>();
            (*inner)[make_shared<CategoricalDistribution<int>>(umap<int>(W{{0, 1}, {1, 1}}, ik), true)] = 0.5;
            (*inner)[make_shared<CategoricalDistribution<int>>(umap<int>(W{{1, 1}, {2, 3}}, ik))] = 0.5;
            auto outer = make_shared<MixedDistributionDistr<int>>();
            (*outer)[make_shared<MixedDistribution<int>>(inner)] = p;
            (*outer)[make_shared<CategoricalDistribution<int>>(umap<int>(W{{3, 1}}, ik))] = 1 - p;
            auto d = make_shared<MixedDistribution<int>>(outer);
            judge(r, "mixture of mixtures", box_of([d](RandManager& g) { return std::to_string(d->sample(g)); }, r),
                  {W{{0, 0.25 * p}, {1, 0.375 * p}, {2, 0.375 * p}, {3, 1 - p}}});
        }
        // updates of a component are seen by the mixture
        auto comp = make_shared<CategoricalDistribution<int>>(umap<int>(W{{0, 1}, {1, 1}}, ik), true, 1);
        auto dd = make_shared<MixedDistributionDistr<int>>(); (*dd)[comp] = 1.0;
        auto d = make_shared<MixedDistribution<int>>(dd);
        W w{{0, 1}, {1, 1}};
        for (int k : {0, 1, 2, 0}) for (double x : {3.0, 0.5}) {
            comp->update(k, x); w[k] = x;
            judge(r, "mixture after component update " + show(w), box_of([d](RandManager& g) { return std::to_string(d->sample(g)); }, r), {w});
        }
    }

    // ---- arg-max
    template <class K, class N> void argmax(Run& r, const char* what, std::function<K(int)> key, std::function<string(K)> name, const vector<N>& vals, int maxn) {
        for (int n = 1; n <= maxn; n++) {
            vector<int> ix(n, 0);
            while (true) {
                unordered_map<K,N> m; std::ostringstream o; o.precision(9); o << what << " {";
                for (int i = 0; i < n; i++) { m[key(i)] = vals[ix[i]]; o << " " << i << ":" << +vals[ix[i]]; }
                o << " }";
                r.current(o.str()); r.state(); r.exec(); r.check();
                auto keep = m;
                Measure ms(box_of([&](RandManager& g) { return name(helper::get_max_key_break_ties_randomly(m, g)); }, r));
                Dist got = ms.dist();
                N best = vals[ix[0]]; for (int i = 1; i < n; i++) if (vals[ix[i]] > best) best = vals[ix[i]];
                Dist want; int c = 0;
                for (int i = 0; i < n; i++) if (vals[ix[i]] == best) { want[std::to_string(i)] = 1; c++; }
                for (auto& p : want) p.second /= c;
                bool ok = seq::close_to(got, want, 1e-6) && m == keep;
                for (auto& s : ms.seen) if (!want.count(s)) ok = false;
                if (!ok) r.fail("%s: returned with probabilities %s, expected %s", o.str().c_str(), seq::show(got).c_str(), seq::show(want).c_str());
                int k = 0; while (k < n && ++ix[k] == (int) vals.size()) ix[k++] = 0;
                if (k == n) break;
            }
        }
    }

    // ---- values
    struct Item { shared_ptr<const Observation> o; shared_ptr<const State> s; shared_ptr<const Action> a; string id; };
    vector<Item> domain(bool copy) {
        (void) copy;
        vector<Item> d; vector<int> I{INT_MIN, INT_MIN + 1, -7, -1, 0, 1, 2, 7, 31, 64, 1000003, INT_MAX - 1, INT_MAX};
        auto st = [&](shared_ptr<const State> s, string id) { d.push_back({s, s, nullptr, id}); };
        auto ac = [&](shared_ptr<const Action> a, string id) { d.push_back({nullptr, nullptr, a, id}); };
        for (int i : I) { st(make_shared<const IntState>(i), "I" + std::to_string(i)); ac(make_shared<const IntAction>(i), "i" + std::to_string(i)); }
        vector<int> J{INT_MIN, -1, 0, 1, 2, 64, INT_MAX};
        for (int a : J) for (int b : J) st(make_shared<const IntPairState>(a, b), "P" + std::to_string(a) + "," + std::to_string(b));
        vector<int> K{-1, 0, 1, 2, INT_MAX};
        for (int a : K) for (int b : K) for (int c : K) st(make_shared<const Int3TupleState>(a, b, c), "T" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c));
        vector<string> S{"", "a", "b", "ab", "ba", "A", "0", "1", "-1", "(0)", " ", "a ", " a", string("a\0b", 3), string("a\0c", 3), string(40, 'x'), string(41, 'x'), string(40, 'x') + "y"};
        for (auto& x : S) ac(make_shared<const StringAction>(x), "s" + x);
        return d;
    }
    // user types whose hashes collide, within (time, observation) keys
    struct Same : public State {
        int v; Same(int v) : v(v) {}
        size_t hash() const override { return 11; }
        bool equals_itfc(const Observation& o) const override { auto p = dynamic_cast<const Same*>(&o); return p && p->v == v; }
        string get_pretty_print_string() const override { return "S" + std::to_string(v); }
    };
    template <class T> void cmp(Run& r, const T& x, const T& y, const string& ix, const string& iy) {
        bool want = ix == iy;
        shared_ptr<const T> px(shared_ptr<const T>(), &x), py(shared_ptr<const T>(), &y);
        bool got[6] = { x == y, y == x, std::equal_to<T>()(x, y), px == py, std::equal_to<shared_ptr<const T>>()(px, py), x.equals_itfc(y) };
        for (int i = 0; i < 6; i++) if (got[i] != want)
            r.fail("values %s and %s compare %s (form %d)", ix.c_str(), iy.c_str(), got[i] ? "equal" : "different", i);
        size_t h[6] = { x.hash(), y.hash(), std::hash<T>()(x), std::hash<T>()(y), std::hash<shared_ptr<const T>>()(px), std::hash<shared_ptr<const T>>()(py) };
        if (want) for (int i = 1; i < 6; i++) if (h[i] != h[0]) r.fail("equal values %s have different hashes (form %d)", ix.c_str(), i);
        if (h[0] != h[2] || h[0] != h[4]) r.fail("the hash of %s depends on how it is referred to", ix.c_str());
        r.check(7); r.trans();
    }
    void values(Run& r) {
        vector<Item> A = domain(false), B = domain(true);
        for (auto& x : A) for (auto& y : B) {
            r.current("compare " + x.id + " with " + y.id); r.exec(); r.state();
            if (x.s && y.s) { cmp<State>(r, *x.s, *y.s, x.id, y.id); cmp<Observation>(r, *x.o, *y.o, x.id, y.id); }
            if (x.a && y.a) cmp<Action>(r, *x.a, *y.a, x.id, y.id);
            // printing
            std::ostringstream p, q, p2, q2;
            if (x.s && y.s) { p << *x.s; q << *y.s; p2 << x.o; q2 << y.o; }
            else if (x.a && y.a) { p << *x.a; q << *y.a; p2 << x.a; q2 << y.a; }
            else continue;
            if (p.str() != p2.str() || q.str() != q2.str()) r.fail("%s prints differently through a pointer", x.id.c_str());
            if (x.id == y.id && p.str() != q.str()) r.fail("two copies of %s print '%s' and '%s'", x.id.c_str(), p.str().c_str(), q.str().c_str());
            if (x.id[0] == y.id[0] && x.id != y.id && p.str() == q.str()) r.fail("%s and %s both print '%s'", x.id.c_str(), y.id.c_str(), p.str().c_str());
        }
        // the concrete types' own equality and printing
        for (int i : {INT_MIN, -1, 0, 1, INT_MAX}) for (int j : {INT_MIN, -1, 0, 1, INT_MAX}) {
            r.exec(); r.check(4);
            if (IntState(i).equals(IntState(j)) != (i == j)) r.fail("IntState(%d).equals(%d)", i, j);
            if (IntAction(i).equals(IntAction(j)) != (i == j)) r.fail("IntAction(%d).equals(%d)", i, j);
            if (!IntPairState(i, j).equals(IntPairState(std::make_pair(i, j)))) r.fail("IntPairState(%d,%d) and its pair constructor differ", i, j);
            if (!Int3TupleState(i, j, i).equals(Int3TupleState(std::make_tuple(i, j, i)))) r.fail("Int3TupleState(%d,%d,%d) and its tuple constructor differ", i, j, i);
            if (IntPairState(i, j).equals(IntPairState(j, i)) != (i == j)) r.fail("IntPairState(%d,%d) equals its swap", i, j);
            std::ostringstream a, b; a << IntState(i) << IntAction(i) << IntPairState(i, j) << Int3TupleState(i, j, i) << StringAction("z");
            b << make_shared<const IntState>(i) << make_shared<const IntAction>(i) << make_shared<const IntPairState>(i, j) << make_shared<const Int3TupleState>(i, j, i) << make_shared<const StringAction>("z");
            if (a.str() != b.str()) r.fail("printed as '%s' and through pointers as '%s'", a.str().c_str(), b.str().c_str());
        }
    }
    template <class K> void container(Run& r, const char* what, std::function<K(int, int)> key, int n, int depth) {
        // all sequences of insert_or_assign / erase of equal but distinct keys, look-ups with further copies
        vector<int> chosen;
        std::function<void()> rec = [&]() {
            unordered_map<K,int> m; std::map<int,int> ref; std::ostringstream o; o << what;
            int v = 0;
            for (int c : chosen) {
                int k = c % n; v++;
                if (c < n) { m.insert_or_assign(key(k, v), v); ref[k] = v; o << " put " << k; }
                else { m.erase(key(k, v)); ref.erase(k); o << " erase " << k; }
            }
            r.current(o.str()); r.exec(); r.state(); r.trans((long) chosen.size());
            if (m.size() != ref.size()) r.fail("%s: %zu entries, expected %zu", o.str().c_str(), m.size(), ref.size());
            for (int k = 0; k < n; k++) {
                auto it = m.find(key(k, 100)); auto jt = ref.find(k);
                r.check();
                if ((it == m.end()) != (jt == ref.end()) || (it != m.end() && it->second != jt->second)) r.fail("%s: look-up of %d", o.str().c_str(), k);
            }
            if ((int) chosen.size() == depth) return;
            for (int c = 0; c < 2 * n; c++) { chosen.push_back(c); rec(); chosen.pop_back(); }
        };
        rec();
    }
    void containers(Run& r) {
        int depth = r.thorough() ? 4 : 3;
        vector<shared_ptr<const State>> s{make_shared<const IntState>(0), make_shared<const IntState>(1), make_shared<const IntPairState>(0, 1), make_shared<const IntPairState>(1, 0), make_shared<const Int3TupleState>(0, 0, 1), make_shared<const Int3TupleState>(0, 1, 0)};
        auto mk = [](int k) -> shared_ptr<const State> {
            switch (k) { case 0: return make_shared<const IntState>(0); case 1: return make_shared<const IntState>(1); case 2: return make_shared<const IntPairState>(0, 1);
                case 3: return make_shared<const IntPairState>(1, 0); case 4: return make_shared<const Int3TupleState>(0, 0, 1); default: return make_shared<const Int3TupleState>(0, 1, 0); } };
        container<shared_ptr<const State>>(r, "map of states:", [&](int k, int) { return mk(k); }, 6, depth);
        container<shared_ptr<const Observation>>(r, "map of observations:", [&](int k, int) { return shared_ptr<const Observation>(mk(k)); }, 6, depth);
        container<shared_ptr<const Action>>(r, "map of actions:", [&](int k, int) -> shared_ptr<const Action> {
            if (k < 3) return make_shared<const IntAction>(k - 1);
            return make_shared<const StringAction>(string(k - 3, 'a')); }, 6, depth);
        container<DNodeIdTuple>(r, "map of (time, observation):", [&](int k, int) { return DNodeIdTuple(k / 3 - 0, mk(k % 3)); }, 6, depth);
        container<DNodeIdTuple>(r, "map of (time, observation with colliding hash):", [&](int k, int) { return DNodeIdTuple(k / 3, make_shared<const Same>(k % 3)); }, 6, depth);
        container<shared_ptr<const State>>(r, "map of states with colliding hash:", [&](int k, int) { return shared_ptr<const State>(make_shared<const Same>(k)); }, 6, depth);
        container<shared_ptr<const Observation>>(r, "map of observations with colliding hash:", [&](int k, int) { return shared_ptr<const Observation>(make_shared<const Same>(k)); }, 6, depth);
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int t = 0; t < 3; t++) for (int u = 0; u < 3; u++) {
            DNodeIdTuple p(t, make_shared<const Same>(i)), q(u, make_shared<const Same>(j));
            r.exec(); r.check();
            if (std::equal_to<DNodeIdTuple>()(p, q) != (i == j && t == u)) r.fail("keys (%d,S%d) and (%d,S%d)", t, i, u, j);
        }
        // keys over a wider domain
        vector<Item> A = domain(false), B = domain(true);
        vector<int> T{INT_MIN, -1, 0, 1, 2, INT_MAX};
        unordered_map<DNodeIdTuple,string> m; size_t n = 0;
        for (int t : T) for (auto& x : A) if (x.o) { m.insert_or_assign(DNodeIdTuple(t, x.o), std::to_string(t) + x.id); n++; }
        if (m.size() != n) r.fail("map of (time, observation): %zu entries for %zu different keys", m.size(), n);
        for (int t : T) for (auto& x : B) if (x.o) {
            r.exec(); r.check();
            auto it = m.find(DNodeIdTuple(t, x.o));
            if (it == m.end() || it->second != std::to_string(t) + x.id) r.fail("map of (time, observation): look-up of (%d,%s)", t, x.id.c_str());
            for (int t2 : T) for (auto& y : A) if (y.o) {
                bool want = t == t2 && x.id == y.id;
                DNodeIdTuple p(t, x.o), q(t2, y.o);
                if (std::equal_to<DNodeIdTuple>()(p, q) != want) r.fail("keys (%d,%s) and (%d,%s)", t, x.id.c_str(), t2, y.id.c_str());
                if (want && std::hash<DNodeIdTuple>()(p) != std::hash<DNodeIdTuple>()(q)) r.fail("hash of (%d,%s)", t, x.id.c_str());
            }
        }
    }

    // ---- observations
    struct ObsEnv : public ThtsEnv {
        W w; bool full;
        ObsEnv(bool full, W w) : ThtsEnv(full), w(w), full(full) {}
        shared_ptr<const State> get_initial_state_itfc() const override { return make_shared<const IntState>(0); }
        bool is_sink_state_itfc(shared_ptr<const State>) const override { return false; }
        shared_ptr<ActionVector> get_valid_actions_itfc(shared_ptr<const State>) const override { return make_shared<ActionVector>(); }
        shared_ptr<StateDistr> get_transition_distribution_itfc(shared_ptr<const State>, shared_ptr<const Action>) const override { return make_shared<StateDistr>(); }
        shared_ptr<const State> sample_transition_distribution_itfc(shared_ptr<const State> s, shared_ptr<const Action>, RandManager&) const override { return s; }
        double get_reward_itfc(shared_ptr<const State>, shared_ptr<const Action>, shared_ptr<const Observation>) const override { return 0; }
        shared_ptr<ObservationDistr> get_observation_distribution_itfc(shared_ptr<const Action> a, shared_ptr<const State> s) const override {
            if (full) return ThtsEnv::get_observation_distribution_itfc(a, s);
            // depends on the action and on the next state
            int k = std::static_pointer_cast<const IntState>(s)->state + 10 * std::static_pointer_cast<const IntAction>(a)->action;
            auto d = make_shared<ObservationDistr>(); double t = total(w);
            for (auto& p : w) { shared_ptr<const Observation> o = make_shared<const IntState>(1000 * p.first + k); (*d)[o] = p.second / t; }
            return d;
        }
    };
    int obs_id(const shared_ptr<const Observation>& o) { return std::static_pointer_cast<const IntState>(std::static_pointer_cast<const State>(o))->state; }
    void observations(Run& r) {
        vector<double> V{0, 0.1, 0.3, 1, 2.5};
        vector<W> ws;
        for (double a : V) for (double b : V) for (double c : V) { W w{{0, a}, {1, b}, {2, c}}; if (total(w) > 0) ws.push_back(w); }
        ws.push_back(W{{0, 1}}); ws.push_back(W{{0, 0.5}, {1, 0.5}});
        for (auto& w : ws) for (int s : {0, 1, 5}) for (int a : {0, 2}) {
            auto act = make_shared<const IntAction>(a); auto st = make_shared<const IntState>(s);
            auto po = make_shared<ObsEnv>(false, w);
            string what = "partially observable " + show(w) + " state " + std::to_string(s) + " action " + std::to_string(a);
            r.state();
            if (po->is_fully_observable()) r.fail("%s claims to be fully observable", what.c_str());
            W k; for (auto& p : w) k[1000 * p.first + s + 10 * a] = p.second;
            judge(r, what, box_of([=](RandManager& g) { return std::to_string(obs_id(po->sample_observation_distribution_itfc(act, st, g))); }, r), {k});
            auto fo = make_shared<ObsEnv>(true, w);
            if (!fo->is_fully_observable()) r.fail("fully observable environment claims not to be");
            judge(r, "fully observable, state " + std::to_string(s), box_of([=](RandManager& g) { return std::to_string(obs_id(fo->sample_observation_distribution_itfc(act, st, g))); }, r), {W{{s, 1.0}}});
            auto d = fo->get_observation_distribution_itfc(act, st); r.check();
            if (d->size() != 1 || obs_id(d->begin()->first) != s || d->begin()->second != 1.0) r.fail("fully observable: the observation distribution of state %d is not that state", s);
        }
    }

    // ---- contexts
    void contexts(Run& r, int depth) {
        const char* keys[2] = {"a", "b"};
        vector<int> chosen;
        std::function<void()> rec = [&]() {
            ThtsEnvContext c; std::ostringstream o; o << "context:";
            shared_ptr<int> m[2]; shared_ptr<const int> mc[2];                    // the reference
            std::weak_ptr<int> dead[2];
            int v = 0;
            for (int op : chosen) {
                int k = op % 2, kind = op / 2; v++;
                o << " " << (const char*[]){"put", "put_const", "erase", "erase_const", "put_raw", "write"}[kind] << " " << keys[k];
                switch (kind) {
                    case 0: m[k] = make_shared<int>(v); c.put_value<int>(keys[k], m[k]); break;
                    case 1: mc[k] = make_shared<const int>(v); c.put_value_const<int>(keys[k], mc[k]); break;
                    case 2: m[k] = nullptr; c.erase(keys[k]); break;
                    case 3: mc[k] = nullptr; c.erase_const(keys[k]); break;
                    case 4: m[k] = make_shared<int>(v); c.put_value_raw(keys[k], m[k]); break;
                    case 5: if (m[k]) { c.get_value<int>(keys[k]) = -v; } break;   // writing through the reference
                }
            }
            r.current(o.str()); r.exec(); r.state(); r.trans((long) chosen.size());
            for (int k = 0; k < 2; k++) {
                r.check(2);
                bool thrown = false; shared_ptr<int> p;
                try { p = c.get_value_ptr<int>(keys[k]); } catch (const std::exception&) { thrown = true; }
                if (thrown != (m[k] == nullptr)) r.fail("%s: reading %s %s", o.str().c_str(), keys[k], thrown ? "fails" : "succeeds");
                if (m[k]) {
                    if (p.get() != m[k].get() || &c.get_value<int>(keys[k]) != m[k].get() || c.get_value_raw(keys[k]).get() != m[k].get()) r.fail("%s: %s is not the value stored", o.str().c_str(), keys[k]);
                    if (m[k].use_count() < 3) r.fail("%s: the context does not own %s", o.str().c_str(), keys[k]);
                } else {
                    for (int f = 0; f < 2; f++) { bool t = false; try { if (f) c.get_value_raw(keys[k]); else c.get_value<int>(keys[k]); } catch (const std::exception&) { t = true; }
                        if (!t) r.fail("%s: reading the unknown key %s is not an error", o.str().c_str(), keys[k]); }
                }
                thrown = false; shared_ptr<const int> q;
                try { q = c.get_value_ptr_const<int>(keys[k]); } catch (const std::exception&) { thrown = true; }
                if (thrown != (mc[k] == nullptr)) r.fail("%s: reading const %s %s", o.str().c_str(), keys[k], thrown ? "fails" : "succeeds");
                if (mc[k]) {
                    if (q.get() != mc[k].get() || &c.get_value_const<int>(keys[k]) != mc[k].get() || c.get_value_raw_const(keys[k]).get() != mc[k].get()) r.fail("%s: const %s is not the value stored", o.str().c_str(), keys[k]);
                } else {
                    bool t = false; try { c.get_value_const<int>(keys[k]); } catch (const std::exception&) { t = true; }
                    if (!t) r.fail("%s: reading the unknown const key %s is not an error", o.str().c_str(), keys[k]);
                }
            }
            // reading must not create entries
            for (int k = 0; k < 2; k++) {
                bool t = false; try { c.get_value_raw(keys[k]); } catch (const std::exception&) { t = true; }
                if (t != (m[k] == nullptr)) r.fail("%s: reading %s changed the context", o.str().c_str(), keys[k]);
            }
            if ((int) chosen.size() == depth) return;
            for (int op = 0; op < 12; op++) { chosen.push_back(op); rec(); chosen.pop_back(); }
        };
        rec();
    }

    // ---- random managers
    void rand_ranges(Run& r, int seeds) {
        struct { int lo, hi; } R[] = {{0, 1}, {0, 2}, {0, 3}, {0, 7}, {5, 6}, {-3, 4}, {-7, -2}, {0, INT_MAX}, {INT_MAX - 3, INT_MAX}, {INT_MIN, INT_MIN + 2}, {-1000000000, 1000000000}, {1, 100}};
        for (int seed = 1; seed <= seeds; seed++) for (auto& q : R) {
            std::ostringstream o; o << "seed " << seed << " range [" << q.lo << "," << q.hi << ")"; r.current(o.str()); r.exec(); r.state();
            RandManager g(seed); std::set<int> seen; long len = (long) q.hi - q.lo;
            for (int i = 0; i < 600; i++) {
                int x = g.get_rand_int(q.lo, q.hi); r.check(); r.trans();
                if (x < q.lo || x >= q.hi) r.fail("%s: drew %d", o.str().c_str(), x);
                seen.insert(x);
                double u = g.get_rand_uniform();
                if (!(u >= 0.0 && u < 1.0)) r.fail("%s: drew the real number %.17g", o.str().c_str(), u);
            }
            if (len <= 7 && (long) seen.size() != len) r.fail("%s: only %zu of %ld values were ever drawn", o.str().c_str(), seen.size(), len);
        }
    }
    void rand_sequences(Run& r, int depth, int seeds) {
        // two managers with the same seed agree on every sequence of requests; different requests in between do not matter for others
        for (int seed = -seeds; seed <= seeds; seed++) {
            if (seed == 0) continue;
            for (int code = 0; code < (1 << (2 * depth)); code++) {
                std::ostringstream o; o << "seed " << seed << " requests " << code; r.current(o.str()); r.exec(); r.state();
                RandManager a(seed), b(seed); RandManager noise(seed + 1);
                for (int i = 0; i < depth; i++) {
                    int k = code >> (2 * i) & 3; r.check(); r.trans();
                    noise.get_rand_uniform(); noise.get_rand_int(0, 5);
                    if (k == 0) { if (a.get_rand_uniform() != b.get_rand_uniform()) r.fail("%s: real draws differ", o.str().c_str()); }
                    else { int hi = k == 1 ? 2 : k == 2 ? 1000 : INT_MAX; if (a.get_rand_int(0, hi) != b.get_rand_int(0, hi)) r.fail("%s: integer draws differ", o.str().c_str()); }
                }
            }
        }
    }

    void registry() {
        auto add = [](string n, string p, int t, std::function<void(Run&)> f) { seq::configs().push_back({n, p, t, f}); };
        static const char* nm[] = {"helper", "helpern", "direct", "alias", "sdirect", "salias", "state"};
        for (int m = HELPER; m <= STATE_DIRECT; m++) {
            add(string("w_") + nm[m], "C17", 0, [m](Run& r) {
                vector<double> V{0, 0.3, 1, 2.5};
                for (int n = 1; n <= (m <= ALIAS ? 4 : 3); n++) all_weights(r, m, n, V);
            });
            add(string("w_ext_") + nm[m], "C17", 0, [m](Run& r) { extreme_weights(r, m); });
            add(string("w_deep_") + nm[m], "C17", 1, [m](Run& r) {
                vector<double> V{0, 0.1, 0.3, 1, 2.5, 7};
                for (int n = 1; n <= 5; n++) all_weights(r, m, n, V);
            });
        }
        vector<W> init{W{{0, 1}}, W{{0, 1}, {1, 3}}, W{{0, 1}, {1, 0}, {2, 2}}};
        for (int alias = 0; alias < 2; alias++) for (int freq = 1; freq <= (alias ? 3 : 1); freq++) for (size_t i = 0; i < init.size(); i++)
            add("upd_" + string(alias ? "alias" : "direct") + std::to_string(freq) + "_" + std::to_string(i), "C17", 0, [=](Run& r) { updates(r, alias, freq, init[i], r.thorough() ? 4 : 3); });
        add("mixed", "C17", 0, uniform_mixed);
        double inf = INFINITY, lo = std::numeric_limits<double>::lowest(), hi = std::numeric_limits<double>::max();
        add("argmax_double", "C18", 0, [=](Run& r) { argmax<int,double>(r, "arg-max<double>", [](int i) { return i * 5 - 3; }, [](int k) { return std::to_string((k + 3) / 5); }, {-inf, lo, -1, -0.0, 0.0, 5e-324, 1, hi, inf}, r.thorough() ? 5 : 4); });
        add("argmax_int", "C18", 0, [=](Run& r) { argmax<string,int>(r, "arg-max<int>", sk, sval, {INT_MIN, -1, 0, 1, INT_MAX}, r.thorough() ? 6 : 5); });
        add("argmax_float", "C18", 0, [=](Run& r) { argmax<int,float>(r, "arg-max<float>", ik, [](int k) { return std::to_string(k); }, {-INFINITY, std::numeric_limits<float>::lowest(), -1e-30f, 0.f, 1.f, INFINITY}, r.thorough() ? 5 : 4); });
        add("argmax_action", "C18", 0, [=](Run& r) { typedef shared_ptr<const Action> A;
            argmax<A,double>(r, "arg-max<Action>", [](int i) { return A(make_shared<const IntAction>(i)); }, [](A a) { return std::to_string(std::static_pointer_cast<const IntAction>(a)->action); }, {-inf, -2, 0, 3}, r.thorough() ? 6 : 5); });
        add("argmax_many", "C18", 0, [=](Run& r) { argmax<int,double>(r, "arg-max many", ik, [](int k) { return std::to_string(k); }, {-1.0, 1.0}, r.thorough() ? 13 : 10); });
        add("values", "C21", 0, values);
        add("containers", "C21", 0, containers);
        add("observations", "C26", 0, observations);
        add("contexts", "C24", 0, [](Run& r) { contexts(r, r.thorough() ? 5 : 4); });
        add("rand_ranges", "C22", 0, [](Run& r) { rand_ranges(r, r.thorough() ? 200 : 30); });
        add("rand_seq", "C22", 0, [](Run& r) { rand_sequences(r, 4, r.thorough() ? 8 : 2); });
    }
}
int main(int argc, char** argv) { registry(); return seq::main_(argc, argv); }
