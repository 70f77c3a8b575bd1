// C07: structure changes while running, in lock step with the reference.
#include "simlab.h"
using namespace lab;

struct P { int n, present; bool mealy; std::vector<RT> ta; int cycles, dev; std::vector<std::vector<Op>> ops; bool user; std::vector<std::vector<int>> inj; std::vector<RT> early; bool twice; bool perm; };
template <class V, class T> void run(P const& p) {
    World<V, T> w; w.dev = p.dev;
    std::vector<Spec> s(p.n);
    for (int i = 0; i < p.n; i++) {
        s[i].ta = p.ta; s[i].out = {{i}}; s[i].ops = p.ops;
        if (p.mealy && i == 1) { s[i].mealy = true; s[i].rule = 0; s[i].mpins = {i}; s[i].out.clear(); }
    }
    std::vector<int> slot; if (p.perm) slot = mc::permutation(p.n);
    w.make(s, slot);
    for (int i = 0; i < p.present; i++) { w.setup({ADD, i, 0}); if (p.twice) w.setup({ADD, i, 0}); }
    for (int i = 0; i < p.present; i++) { w.setup({CPP, i, 10 + i}); w.setup({CPA, 10 + i, (i + 1) % p.present}); }
    w.start(0); w.listeners(1);
    if (p.user) w.envops = p.ops;
    for (int c = 0; c < p.cycles; c++) {
        if (!w.env_cycle(p.early, p.inj)) break;
        if (w.dangling()) { mc::count("stopped: connection to an absent model"); break; }
        if (p.mealy) {
            std::vector<std::pair<int, int>> r; w.rg.route(1, r); bool loop = false;
            for (auto& x : r) if (x.second == 1) loop = true;
            if (loop) { mc::count("stopped: the Mealy model feeds itself"); break; }
        }
    }
}
// single requests over n models and their pins, and pairs whose order matters
static std::vector<std::vector<Op>> singles(int n) {
    std::vector<std::vector<Op>> o = {{}};
    for (int i = 0; i < n; i++) {
        o.push_back({{ADD, i, 0}}); o.push_back({{REM, i, 0}}); o.push_back({{RPIN, i, 0}}); o.push_back({{RPIN, 10 + i, 0}});
        for (int j = 0; j < n; j++) {
            o.push_back({{CPA, 10 + i, j}}); o.push_back({{DPA, 10 + i, j}});
            o.push_back({{CPP, i, 10 + j}}); o.push_back({{DPP, i, 10 + j}});
        }
    }
    return o;
}
static std::vector<std::vector<Op>> groups(int n) {
    std::vector<std::vector<Op>> o = {{}};
    int last = n - 1;
    o.push_back({{ADD, last, 0}, {CPA, 10, last}});
    o.push_back({{CPA, 10, last}, {ADD, last, 0}});
    o.push_back({{ADD, last, 0}, {CPP, last, 10}, {CPA, last, 0}});
    o.push_back({{ADD, last, 0}, {REM, last, 0}});
    o.push_back({{ADD, last, 0}, {ADD, last, 0}});
    for (int i = 0; i < n - 1; i++) {
        o.push_back({{REM, i, 0}, {ADD, i, 0}}); o.push_back({{ADD, i, 0}, {REM, i, 0}}); o.push_back({{REM, i, 0}, {ADD, i, 0}, {CPA, 10, i}});
        o.push_back({{REM, i, 0}, {ADD, last, 0}}); o.push_back({{REM, i, 0}, {REM, i, 0}, {ADD, i, 0}});
        o.push_back({{RPIN, i, 0}, {CPP, i, 10 + i}}); o.push_back({{CPP, i, 10 + i}, {RPIN, i, 0}}); o.push_back({{DPP, i, 10 + i}, {CPA, i, i}});
        o.push_back({{CPA, 10 + i, i}, {REM, i, 0}}); o.push_back({{ADD, i, 0}}); o.push_back({{REM, i, 0}});
    }
    return o;
}
int main(int c, char** v) {
    return mc::main_(c, v, "C07", [](std::vector<mc::Scenario>& s, bool th) {
        using U = unsigned long; using SD = adevs::sd_time<int>;
        std::vector<RT> t = {D(2), D(1), INF()}, t0 = {D(1), D(0), D(3), INF()};
        s.push_back({"3 models, single requests, 4 cycles", [=] { run<U, double>({3, 2, false, t, 4, 3 + th, singles(3), false, {}, {}, false, false}); }});
        s.push_back({"3 models, groups of requests, 4 cycles", [=] { run<U, double>({3, 2, false, t, 4, 3, groups(3), false, {}, {}, false, false}); }});
        s.push_back({"3 models, two instances each, 4 cycles", [=] { run<U, double>({3, 2, false, t, 4, 2 + th, groups(3), true, {{}, {10}}, {D(1)}, true, false}); }});
        s.push_back({"3 models, requests from outside, 4 cycles", [=] { run<U, long>({3, 2, false, t, 4, 2 + th, singles(3), true, {{}, {0}}, {D(0)}, false, false}); }});
        s.push_back({"3 models with a Mealy, 3 cycles", [=] { run<U, double>({3, 2, true, {D(1), INF()}, 3, 2 + th, groups(3), true, {{}, {10}}, {}, false, true}); }});
        s.push_back({"4 models, super dense, 5 cycles", [=] { run<U, SD>({4, 3, false, {D(1), D(0), D(0, 1), D(2), INF()}, 5, 2 + th, groups(4), false, {}, {}, false, false}); }});
        s.push_back({"4 models, super dense, groups, one request per model, 3 cycles", [=] { auto g = groups(4); g.resize(7); run<U, SD>({4, 3, false, {D(1)}, 2 + th, 99, g, false, {}, {}, false, false}); }});
        s.push_back({"2 models, all behaviours and requests, 2 cycles", [=] { run<U, double>({2, 1, false, {D(1), D(0), INF()}, 2 + th, 99, singles(2), false, {}, {}, false, true}); }});
    });
}
