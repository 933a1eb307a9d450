// Registry, command line and exploration engines of the sequential harnesses (built with address and undefined
// behaviour sanitizers).  A configuration runs in a forked child, so that a crash or a sanitizer report of the code
// under test becomes a violation of that configuration.
#pragma once
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace seq {
    inline double mono() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

    struct Shared {                      // shared between the child that explores and its parent
        long executions, transitions, states, pruned, checks;
        int complete, finished, violation;
        char current[3000];              // what is being executed (reported when the child dies)
        char message[4000];
        char trace[200000];
        int nsamples; char samples[3][1500];
    };
    struct Violation { };
    struct Capped { };

    struct Run {
        Shared* sh;
        std::string prop; int tier; double deadline; long tick = 0;
        bool thorough() const { return tier == 1; }
        bool want(const char* p) const { return prop == p; }
        void exec(long n = 1) { sh->executions += n; if ((++tick & 15) == 0 && mono() > deadline) throw Capped(); }
        void trans(long n = 1) { sh->transitions += n; }
        void state(long n = 1) { sh->states += n; }
        void check(long n = 1) { sh->checks += n; }
        void current(const std::string& s) { snprintf(sh->current, sizeof sh->current, "%s", s.c_str()); }
        void sample(const std::string& s) { if (sh->nsamples < 3) snprintf(sh->samples[sh->nsamples++], 1500, "%s", s.c_str()); }
        [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
            va_list ap; va_start(ap, fmt);
            vsnprintf(sh->message, sizeof sh->message, fmt, ap); va_end(ap);
            snprintf(sh->trace, sizeof sh->trace, "%s\n", sh->current);
            sh->violation = 1;
            throw Violation();
        }
    };
    struct Config {
        std::string name, props; int tier;
        std::function<void(Run&)> fn;
    };
    inline std::vector<Config>& configs() { static std::vector<Config> v; return v; }

    inline std::string jstr(const std::string& s) {
        std::string o = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c == '\n') o += "\\n";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += c;
        }
        return o + "\"";
    }

    inline Shared*& active() { static Shared* s = nullptr; return s; }

    // runs one configuration in a child; returns 0 held, 1 violation, 2 internal error
    inline int run_config(Config& c, Shared* sh, const std::string& prop, int tier, double limit) {
        memset(sh, 0, sizeof *sh);
        int pfd[2]; if (pipe(pfd)) return 2;
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0) {
            close(pfd[0]); dup2(pfd[1], 2); close(pfd[1]);
            Run r; r.sh = sh; r.prop = prop; r.tier = tier; r.deadline = mono() + limit;
            int rc = 0;
            active() = sh;
            try { c.fn(r); sh->complete = 1; }
            catch (const Violation&) { rc = 1; }
            catch (const Capped&) { rc = 0; }
            catch (const std::exception& e) {
                snprintf(sh->message, sizeof sh->message, "exception: %s\n  while: %s", e.what(), sh->current);
                snprintf(sh->trace, sizeof sh->trace, "%s\n", sh->current);
                sh->violation = 1; rc = 1;
            }
            sh->finished = 1;
            fflush(stdout);
            _exit(rc);
        }
        close(pfd[1]);
        std::string err; char buf[4096];
        fcntl(pfd[0], F_SETFL, O_NONBLOCK);
        double kill_at = mono() + 60;               // one execution that never ends
        long progress = -1;
        bool hung = false; int status = 0; bool reaped = false;
        while (true) {
            ssize_t n = read(pfd[0], buf, sizeof buf);
            if (n > 0) { if (err.size() < 20000) err.append(buf, n); continue; }
            if (n == 0 && !reaped) { waitpid(pid, &status, 0); reaped = true; }
            if (reaped) break;
            if (waitpid(pid, &status, WNOHANG) == pid) { reaped = true; continue; }
            long now = sh->executions + sh->transitions + sh->checks;
            if (now != progress) { progress = now; kill_at = mono() + 60; }
            if (mono() > kill_at) { kill(pid, SIGKILL); hung = true; }
            usleep(2000);
        }
        close(pfd[0]);
        if (hung) {
            sh->violation = 1; snprintf(sh->message, sizeof sh->message, "an execution does not end\n  while: %.2000s", sh->current);
            snprintf(sh->trace, sizeof sh->trace, "%s\n", sh->current);
        } else if (!sh->finished) {
            sh->violation = 1;
            size_t p = err.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = err.find("runtime error");
            std::string e = p == std::string::npos ? err.substr(0, 600) : err.substr(p > 120 ? p - 120 : 0, 900);
            snprintf(sh->message, sizeof sh->message, "the program was ended (status %d): %.1200s\n  while: %.1500s", status, e.c_str(), sh->current);
            snprintf(sh->trace, sizeof sh->trace, "%s\n", sh->current);
        }
        return sh->violation ? 1 : 0;
    }

    inline int main_(int argc, char** argv) {
        std::string run, out, trace, replay, prop; int tier = 0; double limit = 600; bool list = false;
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--list") list = true;
            else if (a == "--run") run = next();
            else if (a == "--prop") prop = next();
            else if (a == "--tier") tier = atoi(next().c_str());
            else if (a == "--out") out = next();
            else if (a == "--trace") trace = next();
            else if (a == "--replay") replay = next();
            else if (a == "--limit") limit = atof(next().c_str());
        }
        if (list) {
            for (auto& c : configs()) printf("%s\t%d\t%s\n", c.name.c_str(), c.tier, c.props.c_str());
            return 0;
        }
        Config* cfg = nullptr;
        for (auto& c : configs()) if (c.name == run) cfg = &c;
        if (!cfg) { fprintf(stderr, "unknown configuration %s\n", run.c_str()); return 3; }
        Shared* sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        // enumeration is deterministic: a replay repeats it up to the recorded violation
        int rc = run_config(*cfg, sh, prop, tier, limit);
        if (!replay.empty()) { printf("%s\n", sh->violation ? sh->message : "no violation"); return sh->violation ? 1 : 0; }
        if (!trace.empty() && sh->violation) { std::ofstream f(trace); f << sh->trace; }
        std::ostringstream js;
        js << "{\"config\":" << jstr(cfg->name) << ",\"executions\":" << sh->executions << ",\"pruned\":" << sh->pruned
           << ",\"transitions\":" << sh->transitions << ",\"states\":" << sh->states << ",\"checks\":" << sh->checks
           << ",\"complete\":" << sh->complete << ",\"violation\":" << sh->violation << ",\"message\":" << jstr(sh->message) << ",\"samples\":[";
        for (int i = 0; i < sh->nsamples; i++) js << (i ? "," : "") << jstr(sh->samples[i]);
        js << "],\"outcome_samples\":[]}\n";
        if (out.empty()) printf("%s", js.str().c_str());
        else { std::ofstream f(out); f << js.str(); }
        return rc;
    }

    // ---- exact probabilities of a black box that consumes random draws ------------------------------------------
    // f(draws) either returns an outcome or asks for one more draw (n == 0: a uniform number, n > 0: an integer in
    // [0,n)).  dist() computes the exact distribution: integers are enumerated, for a uniform number the partition of
    // [0,1) into intervals of equal behaviour is found by bisection between points of a grid.
    struct Ans { bool need = false; int n = 0; std::string out; };
    typedef std::vector<double> Vals;                    // an integer draw is stored as its index
    typedef std::function<Ans(const Vals&)> Box;
    typedef std::map<std::string,double> Dist;

    struct Measure {
        Box f; int grid; double tol; int max_draws;
        long runs = 0;
        std::vector<double> extra;                       // further draws to try (boundaries)
        std::set<std::string> seen;                      // all outcomes, also those that occur for single draws only
        Measure(Box f, int grid = 16, double tol = 1e-9, int max_draws = 6) : f(f), grid(grid), tol(tol), max_draws(max_draws) {}
        static bool same(const Dist& a, const Dist& b) {
            if (a.size() != b.size()) return false;
            auto i = a.begin(); auto j = b.begin();
            for (; i != a.end(); ++i, ++j) if (i->first != j->first || fabs(i->second - j->second) > 1e-6) return false;
            return true;
        }
        Dist dist(Vals v = {}) {
            runs++;
            Ans a = f(v);
            if (!a.need) { seen.insert(a.out); return Dist{{a.out, 1.0}}; }
            if ((int) v.size() >= max_draws) return Dist{{"(more draws)", 1.0}};
            Dist r;
            if (a.n > 0) {
                for (int i = 0; i < a.n; i++) {
                    Vals w = v; w.push_back(i);
                    for (auto& p : dist(w)) r[p.first] += p.second / a.n;
                }
                return r;
            }
            // uniform draw
            std::vector<double> xs{0.0};
            for (int i = 0; i < grid; i++) xs.push_back((i + 0.5) / grid);
            xs.push_back(1.0 - std::ldexp(1.0, -53));
            if (!extra.empty()) {
                for (double x : extra) if (x > 0.0 && x < 1.0) xs.push_back(x);
                std::sort(xs.begin(), xs.end()); xs.erase(std::unique(xs.begin(), xs.end()), xs.end());
            }
            auto at = [&](double u) { Vals w = v; w.push_back(u); return dist(w); };
            double lo = xs[0]; Dist dlo = at(lo); double start = 0.0;
            for (size_t k = 1; k < xs.size(); k++) {
                double hi = xs[k]; Dist dhi = at(hi);
                split(lo, dlo, hi, dhi, at, r, start, 0);
                lo = hi; dlo = dhi;
            }
            for (auto& p : dlo) r[p.first] += p.second * (1.0 - start);
            return r;
        }
        // adds the mass of every interval that ends between lo and hi
        template <class F>
        void split(double lo, const Dist& dlo, double hi, const Dist& dhi, F at, Dist& r, double& start, int depth) {
            if (same(dlo, dhi)) return;
            double a = lo, b = hi; Dist da = dlo, db = dhi;
            while (b - a > tol) {
                double m = 0.5 * (a + b);
                Dist dm = at(m);
                if (same(dm, da)) { a = m; }
                else if (same(dm, db)) { b = m; }
                else {                                  // a third behaviour in between
                    if (depth > 40) break;
                    split(a, da, m, dm, at, r, start, depth + 1);
                    a = m; da = dm;
                }
            }
            double cut = 0.5 * (a + b);
            for (auto& p : da) r[p.first] += p.second * (cut - start);
            start = cut;
        }
    };
    inline std::string show(const Dist& d) {
        std::ostringstream o; o.precision(9);
        o << "{";
        for (auto& p : d) o << (o.tellp() > 1 ? ", " : "") << p.first << ": " << p.second;
        o << "}";
        return o.str();
    }
    inline bool close_to(const Dist& a, const Dist& b, double eps) {
        std::set<std::string> ks;
        for (auto& p : a) ks.insert(p.first);
        for (auto& p : b) ks.insert(p.first);
        for (auto& k : ks) {
            double x = a.count(k) ? a.at(k) : 0.0, y = b.count(k) ? b.at(k) : 0.0;
            if (!(fabs(x - y) <= eps)) return false;
        }
        return true;
    }
}

// A mutex that stays locked: with a single thread nobody can ever unlock it.
extern "C" inline __attribute__((used)) int seq_lock(pthread_mutex_t* m) {
    static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (!seq::active()) return real(m);
    int rc = pthread_mutex_trylock(m);
    if (rc != EBUSY) return rc;
    timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 20;
    rc = pthread_mutex_timedlock(m, &t);
    if (rc != ETIMEDOUT) return rc;
    seq::Shared* sh = seq::active();
    snprintf(sh->message, sizeof sh->message, "a mutex is locked and never unlocked again: the next lock blocks forever\n  while: %.2500s", sh->current);
    snprintf(sh->trace, sizeof sh->trace, "%s\n", sh->current);
    sh->violation = 1; sh->finished = 1;
    _exit(1);
}
extern "C" __attribute__((weak)) int pthread_mutex_lock(pthread_mutex_t* m) { return seq_lock(m); }
