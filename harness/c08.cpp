// C08: what 0-3 listeners are told, against what the reference produces and consumes.
#include "simlab.h"
using namespace lab;

struct P { int moore, mealy; std::vector<RT> ta; int cycles, dev; std::vector<std::vector<int>> inj; std::vector<RT> early; std::vector<std::vector<Op>> ops; bool late, perm; };
template <class V, class T> void run(P const& p) {
    World<V, T> w; w.dev = p.dev; w.check_listeners = true;
    int N = p.moore + p.mealy;
    std::vector<Spec> s(N);
    for (int i = 0; i < N; i++) {
        s[i].ta = p.ta; s[i].ops = p.ops;
        if (i >= p.moore) { s[i].mealy = true; s[i].mpins = {i, 10 + i}; s[i].rule = mc::pick(std::vector<int>{0, 3, 1, 8}); }
        else s[i].out = {{i}, {}, {i, i}, {i, 40}, {40, 41, 42}};
    }
    std::vector<int> slot; if (p.perm) slot = mc::permutation(N);
    w.make(s, slot); w.add_all();
    int net = mc::choose(4);
    for (int i = 0; i < N; i++) {  // pins 40.. reach one, two or all models; a model's own pin the next ones
        for (int j = 0; j < N; j++) if (i < p.moore ? ((net & 1) ? j != i : j == (i + 1) % N) : (j > i || (j < p.moore && (net & 2)))) w.setup({CPA, i, j});
        if (i >= p.moore && i + 1 < N) w.setup({CPA, 10 + i, N - 1});
        w.setup({CPA, 41, i});
    }
    w.setup({CPA, 42, 0}); w.setup({CPP, 42, 41});
    w.start(0);
    int k = p.late ? 1 : mc::choose(4);
    w.listeners(k);
    for (int c = 0; c < p.cycles; c++) {
        if (!w.env_cycle(p.early, p.inj)) break;
        if (w.dangling()) break;
    }
    mc::count("listener calls in the last cycle", w.lev[0].size());
}
// a listener that joins while running sees everything from then on; one cycle in one call
void join() {
    using W = World<unsigned long, double>;
    W w; w.check_listeners = true;
    std::vector<Spec> s(3);
    for (int i = 0; i < 2; i++) { s[i].ta = {D(1), D(2)}; s[i].out = {{i}, {i, 40}}; }
    s[2].mealy = true; s[2].ta = {INF(), D(1)}; s[2].rule = 0; s[2].mpins = {2};
    w.make(s, mc::permutation(3)); w.add_all();
    w.setup({CPA, 0, 1}); w.setup({CPA, 0, 2}); w.setup({CPA, 1, 2}); w.setup({CPA, 40, 0}); w.setup({CPA, 40, 2}); w.setup({CPA, 2, 0});
    w.start(0);
    int at = mc::choose(3), n = mc::pick(std::vector<int>{2, 12});
    for (int c = 0; c < 3; c++) {
        if (c == at) w.listeners(n);
        w.cycle(w.ref_next(), {});
        if (c < at && !w.lev[0].empty()) mc::fail("a listener is called before it is registered");
    }
}
int main(int c, char** v) {
    return mc::main_(c, v, "C08", [](std::vector<mc::Scenario>& s, bool th) {
        using U = unsigned long; using SD = adevs::sd_time<int>;
        std::vector<std::vector<int>> inj = {{}, {41}, {42, 0}}; std::vector<RT> t = {D(1), D(0), INF()};
        std::vector<std::vector<Op>> ops = {{}, {{REM, 0, 0}}, {{DPA, 41, 0}, {CPA, 0, 0}}, {{REM, 1, 0}, {ADD, 1, 0}}};
        s.push_back({"2 Moore, 3 cycles", [=] { run<U, double>({2, 0, t, 3, 3 + th, inj, {D(0)}, {}, false, true}); }});
        s.push_back({"2 Moore, 1 Mealy, 3 cycles", [=] { run<U, double>({2, 1, t, 3, 2 + th, inj, {D(1)}, {}, false, true}); }});
        s.push_back({"1 Moore, 2 Mealy, 3 cycles", [=] { run<U, double>({1, 2, {D(1), INF()}, 3, 2 + th, inj, {}, {}, false, true}); }});
        s.push_back({"1 Moore, 3 Mealy, 2 cycles", [=] { run<U, double>({1, 3, {D(1), INF()}, 2, 1 + th, {}, {}, {}, false, true}); }});
        s.push_back({"2 Moore, 1 Mealy, structure changes, 3 cycles", [=] { run<U, double>({2, 1, {D(1), INF()}, 3, 2 + th, {}, {}, ops, false, false}); }});
        s.push_back({"2 Moore, 1 Mealy, super dense, 3 cycles", [=] { run<U, SD>({2, 1, {D(1), D(0), D(0, 1), INF()}, 3, 3, inj, {D(0)}, {}, false, false}); }});
        s.push_back({"2 Moore, 1 Mealy, std::any values, 2 cycles", [=] { run<std::any, double>({2, 1, t, 2, 2, inj, {}, {}, false, false}); }});
        s.push_back({"1 Moore, all behaviours, 3 cycles", [=] { run<U, double>({1, 0, t, 2 + th, 99, inj, {}, {}, false, false}); }});
        s.push_back({"2 Moore, all behaviours, 1 cycle", [=] { run<U, double>({2, 1, t, 1, 99, inj, {}, {}, false, th}); }});
        s.push_back({"listeners that join later", join});
    });
}
