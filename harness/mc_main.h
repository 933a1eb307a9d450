// Registry and command line of the concurrent harnesses (linked against libmcrt.so).
#pragma once
#include "mc.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

struct McConfig {
    std::string name;
    std::string props;        // space separated property ids this configuration decides
    int tier;                 // 0: quick and thorough, 1: thorough only
    void (*setup)(int arg);   // before the snapshot
    void (*body)();
    int arg;
    int preempt;              // preemption bound in the quick tier (-1: unbounded)
    int preempt_thorough;
    int spurious;
    long steps = 0;           // scheduling points before an execution counts as endless (0: default)
};
inline std::vector<McConfig>& mc_configs() { static std::vector<McConfig> v; return v; }
inline std::string& mc_prop() { static std::string p; return p; }
inline bool want(const char* id) { return mc_prop() == id; }

inline void mc_warm_up() {
    std::stringstream ss;
    ss << 1 << " " << 2.5 << " " << -1e-7 << " " << std::string("x") << std::boolalpha << true;
    try { throw std::runtime_error("warm"); } catch (const std::exception& e) { ss << e.what(); }
    double d; ss >> d;
}

static std::string json_str(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

inline int mc_run_main(int argc, char** argv) {
    std::string run, out, trace, replay; int tier = 0; double limit = 600; bool list = false; int pb = -100; bool verbose = true;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--list") list = true;
        else if (a == "--run") run = next();
        else if (a == "--prop") mc_prop() = next();
        else if (a == "--tier") tier = atoi(next().c_str());
        else if (a == "--out") out = next();
        else if (a == "--trace") trace = next();
        else if (a == "--replay") replay = next();
        else if (a == "--limit") limit = atof(next().c_str());
        else if (a == "--preempt") pb = atoi(next().c_str());
        else if (a == "--quiet") verbose = false;
    }
    if (list) {
        for (auto& c : mc_configs()) printf("%s\t%d\t%s\n", c.name.c_str(), c.tier, c.props.c_str());
        return 0;
    }
    McConfig* cfg = nullptr;
    for (auto& c : mc_configs()) if (c.name == run) cfg = &c;
    if (!cfg) { fprintf(stderr, "unknown configuration %s\n", run.c_str()); return 3; }
    mc_warm_up();
    if (cfg->setup) cfg->setup(cfg->arg);
    McOptions o; mc_default_options(&o);
    o.preemption_bound = tier ? cfg->preempt_thorough : cfg->preempt;
    if (pb != -100) o.preemption_bound = pb;
    o.spurious_budget = cfg->spurious;
    if (cfg->steps) o.step_limit = cfg->steps;
    o.time_limit_s = limit;
    o.leak_check = want("C23");
    mc_snapshot();
    if (!replay.empty()) {
        char msg[4000];
        int v = mc_replay(cfg->body, &o, replay.c_str(), msg, sizeof msg, verbose);
        printf("%s\n", v ? msg : "no violation");
        return v ? 1 : 0;
    }
    // iterative context bounding: all schedules with at most 0, 1, 2, ... preemptions, up to the bound of the
    // configuration or until the time is used up
    // (no heap memory here: the arena is reset before each execution)
    int target = o.preemption_bound, bounds[64], nb = 0;
    for (int b = 0; b < (target < 0 ? 4 : target); b++) bounds[nb++] = b;
    bounds[nb++] = target;
    McResult r; memset(&r, 0, sizeof r);
    struct timespec ts0; clock_gettime(CLOCK_MONOTONIC, &ts0);
    int done = -2;                          // largest bound explored completely (-2: none, -1: no bound needed)
    long executions = 0, transitions = 0, states = 0, pruned = 0;
    char per_bound[4096] = "";
    for (int bi = 0; bi < nb; bi++) {
        int b = bounds[bi];
        struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
        double used = (ts.tv_sec - ts0.tv_sec) + 1e-9 * (ts.tv_nsec - ts0.tv_nsec);
        if (used > limit) break;
        o.preemption_bound = b; o.time_limit_s = limit - used;
        mc_explore(cfg->body, &o, &r, trace.empty() ? nullptr : trace.c_str());
        executions += r.executions; transitions += r.transitions; pruned += r.pruned; if (r.states > states) states = r.states;
        char pbuf[200]; snprintf(pbuf, sizeof pbuf, "%s{\"bound\":%d,\"executions\":%ld,\"states\":%ld,\"complete\":%d}",
            *per_bound ? "," : "", b, r.executions, r.states, r.complete);
        strncat(per_bound, pbuf, sizeof per_bound - strlen(per_bound) - 1);
        if (r.violation) break;
        if (r.complete) done = b;
        if (!r.complete) break;
        if (!r.bound_hit) { done = -1; break; }
    }
    r.complete = done == target || done == -1;
    r.executions = executions; r.transitions = transitions; r.states = states; r.pruned = pruned;
    std::ostringstream js;
    js << "{\"config\":" << json_str(cfg->name) << ",\"executions\":" << r.executions << ",\"pruned\":" << r.pruned
       << ",\"transitions\":" << r.transitions << ",\"states\":" << r.states << ",\"max_depth\":" << r.max_depth
       << ",\"choice_points\":" << r.choice_points << ",\"outcomes\":" << r.outcomes << ",\"race_accesses\":" << r.race_accesses
       << ",\"max_threads\":" << r.max_threads << ",\"complete\":" << r.complete << ",\"violation\":" << r.violation
       << ",\"preemption_bound\":" << target << ",\"completed_bound\":" << done << ",\"bounds\":[" << per_bound << "]" << ",\"spurious\":" << o.spurious_budget
       << ",\"message\":" << json_str(r.message) << ",\"samples\":[";
    for (int i = 0; i < mc_sample_count() && i < 3; i++) js << (i ? "," : "") << json_str(std::string(mc_sample(i)).substr(0, 600));
    js << "],\"outcome_samples\":[";
    for (int i = 0; i < mc_outcome_sample_count() && i < 4; i++) js << (i ? "," : "") << json_str(mc_outcome_sample(i));
    js << "]}\n";
    if (out.empty()) printf("%s", js.str().c_str());
    else { std::ofstream f(out); f << js.str(); }
    return r.violation ? 1 : 0;
}
