// Draws of several threads from one random manager are serialised (C22, C04): under every schedule the threads' draws
// are those of one sequential order of the calls.
#include "mc_main.h"
#include "toy.h"

#include <functional>
#include <thread>

using namespace thts;

namespace {
    // per thread: what to draw: -1 a real, n > 0 an integer below n
    struct Scen { std::string name; int seed; std::vector<std::vector<int>> ops; int ref_ops; };
    Scen S;
    std::vector<Scen>& scens() { static std::vector<Scen> v; return v; }
    double draw(RandManager& r, int op) { return op < 0 ? r.get_rand_uniform() : (double) r.get_rand_int(0, op); }

    // random_device is not modelled: managers get a non-zero seed
    void body() {
        std::vector<std::vector<double>> got(S.ops.size());
        for (size_t i = 0; i < S.ops.size(); i++) got[i].resize(S.ops[i].size());
        {
            RandManager rm(S.seed);
            std::vector<std::thread> ts;
            for (size_t i = 0; i < S.ops.size(); i++) ts.emplace_back([&rm, &got, i] {
                for (size_t k = 0; k < S.ops[i].size(); k++) got[i][k] = draw(rm, S.ops[i][k]);
            });
            for (auto& t : ts) t.join();
        }
        mc_ghost_begin();
        if (want("C22")) {
            std::vector<size_t> pos(S.ops.size(), 0);
            std::vector<int> order;
            std::function<bool()> explain = [&]() {
                bool done = true;
                for (size_t i = 0; i < pos.size(); i++) {
                    if (pos[i] >= S.ops[i].size()) continue;
                    done = false;
                    order.push_back((int) i);
                    bool ok;
                    {
                        RandManager ref(S.seed); std::vector<size_t> p(pos.size(), 0); ok = true;
                        for (int t : order) { double x = draw(ref, S.ops[t][p[t]]); if (x != got[t][p[t]]) ok = false; p[t]++; }
                    }
                    if (ok) { pos[i]++; if (explain()) return true; pos[i]--; }
                    order.pop_back();
                }
                return done;
            };
            std::string s;
            for (size_t i = 0; i < got.size(); i++) for (size_t k = 0; k < got[i].size(); k++) s += "t" + std::to_string(i) + ":" + std::to_string(got[i][k]) + " ";
            for (size_t i = 0; i < got.size(); i++) for (size_t k = 0; k < got[i].size(); k++) {
                double x = got[i][k]; int op = S.ops[i][k];
                if (op < 0 ? !(x >= 0 && x < 1) : !(x >= 0 && x < op)) mc_fail("draw %g out of range", x);
            }
            if (!explain()) mc_fail("the draws of the threads are not those of any order of the calls: %s", s.c_str());
            mc_outcome(s.c_str());
        }
        mc_ghost_end();
    }
    void setup(int i) { S = scens()[i]; }
    void add(const char* n, int seed, std::vector<std::vector<int>> ops, int tier = 0) {
        scens().push_back({std::string("rand_mt_") + n, seed, ops, 0});
        mc_configs().push_back({scens().back().name, "C22 C04", tier, setup, body, (int) scens().size() - 1, -1, -1, 0});
    }
}

int main(int argc, char** argv) {
    mc_host(1);
    add("ints", 1, {{100, 100}, {100, 7}});
    add("reals", 2, {{-1, -1}, {-1, -1}});
    add("mixed", 7, {{-1, 50}, {50, -1}});
    add("mixed3", 7, {{-1, 50, 3}, {50, -1, -1}});
    add("three", 3, {{-1}, {9}, {1000, -1}});
    add("long", 3, {{-1, 5, 5, -1}, {9, 9, -1, -1}}, 1);
    mc_host(0);
    return mc_run_main(argc, argv);
}
