// C01: every cycle of the real simulator against the plain reference.
#include "simlab.h"
using namespace lab;

template <class V, class T> struct P {
    int n; std::vector<RT> ta; std::vector<std::vector<int>> out; int depth; int dev;
    std::vector<RT> early; std::vector<std::vector<int>> inj; bool perm; int how; int nl;
};
template <class V, class T> void run(P<V, T> const& p) {
    World<V, T> w;
    w.dev = p.dev;
    std::vector<Spec> s(p.n);
    for (auto& x : s) { x.ta = p.ta; x.out = p.out; }
    std::vector<int> slot;
    if (p.perm) slot = mc::permutation(p.n);
    w.make(s, slot);
    w.add_all();
    for (int m = 1; m < (1 << p.n) && m < 16; m++) for (int i = 0; i < p.n; i++) if (m >> i & 1) w.setup({CPA, 100 + m, i});
    // a pin that reaches model 0 directly and, over two other pins, models 0 and 1
    w.setup({CPA, 200, 0}); w.setup({CPP, 200, 201}); w.setup({CPP, 200, 202}); w.setup({CPA, 201, 0}); if (p.n > 1) w.setup({CPA, 202, 1});
    w.setup({CPP, 202, 203}); w.setup({CPA, 203, 0});
    w.start(p.how);
    w.listeners(p.nl);
    for (int c = 0; c < p.depth; c++) if (!w.env_cycle(p.early, p.inj)) break;
}
template <class V, class T> void add(std::vector<mc::Scenario>& v, std::string name, P<V, T> p) {
    v.push_back({name, [p] { run<V, T>(p); }});
}

// Moore models that feed Mealy models, those feed later Mealy models and Moore models again
struct Q { int moore, mealy; std::vector<RT> ta; int depth, dev; std::vector<RT> early; std::vector<std::vector<int>> inj; bool perm; };
template <class V, class T> void mixed(Q const& p) {
    World<V, T> w; w.dev = p.dev;
    int N = p.moore + p.mealy;
    std::vector<Spec> s(N);
    for (int i = 0; i < N; i++) {
        s[i].ta = p.ta;
        if (i >= p.moore) { s[i].mealy = true; s[i].mpins = {i}; s[i].rule = mc::pick(std::vector<int>{0, 3, 6, 7}); }
        else s[i].out = {{i}, {}, {i, 40}, {40}};
    }
    std::vector<int> slot; if (p.perm) slot = mc::permutation(N);
    w.make(s, slot); w.add_all();
    for (int i = 0; i < N; i++) {
        for (int j = 0; j < N; j++) if (i < p.moore ? j > i : j > i || (j < p.moore && j == i - p.moore)) w.setup({CPA, i, j});
        w.setup({CPA, 41, i});
    }
    w.setup({CPP, 40, 42}); w.setup({CPA, 42, N - 1}); w.setup({CPA, 40, 0});
    w.start(0); w.listeners(1);
    for (int c = 0; c < p.depth; c++) if (!w.env_cycle(p.early, p.inj)) break;
}

// many models, so that the event queue's storage grows while they run
template <class T> void crowd() {   // all imminent at once, none sends anything
    World<unsigned long, T> w;
    int n = mc::pick(std::vector<int>{254, 255, 256, 257, 511, 513, 1030, 2100});
    std::vector<Spec> s(n); int odd = mc::choose(2);
    for (int i = 0; i < n; i++) s[i].ta = {D(odd && i % 7 == 3 ? 2 : 1)};
    w.make(s); w.add_all(); w.start(0);
    for (int c = 0; c < 3; c++) w.cycle(w.ref_next(), {});
}
template <class T> void many() {
    World<unsigned long, T> w;
    int n = mc::pick(std::vector<int>{60, 101, 110, 150, 230, 300});
    int mul = mc::pick(std::vector<int>{1, 3, 7}), per = mc::pick(std::vector<int>{1, 2, 5, 11}), rev = mc::choose(2);
    int late = mc::choose(2);
    std::vector<Spec> s(n); std::vector<int> slot(n);
    for (int i = 0; i < n; i++) {
        s[i].ta = {D(1 + (i * mul) % per)};
        if (i % 13 == 5) s[i].ta = {INF()};
        if (i % 17 == 3 && per > 1) s[i].ta = {D(per + 3)};
        s[i].out = {i % 3 == 0 ? std::vector<int>{} : std::vector<int>{(int)(i * mul + 1) % n}};
        slot[i] = rev ? n - 1 - i : i;
    }
    s[2].out = {{300, 5, 5, 6, 7, 300, 9, 9, 9}};   // over 24 pins, and many values
    // models that join after the start: half of them, at the first transition of model 1
    if (late) { std::vector<Op> o; for (int i = n / 2; i < n; i++) o.push_back({ADD, i, 0}); s[1].ops = {o}; }
    w.make(s, slot);
    for (int i = 0; i < (late ? n / 2 : n); i++) w.setup({ADD, i, 0});
    for (int i = 0; i < (late ? n / 2 : n); i++) w.setup({CPA, i, i});
    for (int i = 0; i < 24; i++) w.setup({CPP, 300 + i, 301 + i});
    w.setup({CPA, 324, 0});
    w.start(0);
    for (int c = 0; c < 12; c++) {
        w.cycle(w.ref_next(), {});
        w.spec[1].ops.clear();
    }
}

int main(int c, char** v) {
    return mc::main_(c, v, "C01", [](std::vector<mc::Scenario>& s, bool th) {
        using U = unsigned long;
        std::vector<std::vector<int>> o2 = {{}, {101}, {102}, {103}}, o3 = subset_menu(100, 3);
        std::vector<std::vector<int>> multi = {{}, {101, 101}, {200}, {103, 200}, {101, 102, 101}};
        std::vector<std::vector<int>> i2 = {{}, {101}, {102}, {103}}, i3 = {{}, {101}, {107}, {200, 103}};
        std::vector<RT> t3 = {D(1), D(0), INF()}, t4 = {D(1), D(0), D(2), INF()};
        add<U, double>(s, "2 models, all behaviours, 2 cycles", {2, t3, o2, 2, 99, {D(0), D(1)}, i2, true, 0, 1});
        add<U, double>(s, "2 models, several outputs each, 2 cycles", {2, t3, multi, 2, 99, {}, {{}}, true, 0, 1});
        add<U, double>(s, "2 models, 3 cycles, time advances only", {2, t4, {{101}}, 3, 99, {D(1)}, {{}, {102}}, false, 0, 1});
        add<U, adevs::sd_time<int>>(s, "2 models, super dense clock, 3 cycles", {2, {D(1), D(0), D(0, 1), INF()}, {{103}}, 3, 99, {D(0), D(0, 1)}, {{}, {102}}, false, 0, 1});
        add<U, long>(s, "1 model, 4 cycles", {1, t4, {{}, {101}}, 4, 99, {D(0), D(1)}, {{}, {101}, {101, 101}}, false, 0, 1});
        add<U, int>(s, "3 models, 6 cycles, 4 deviations", {3, {D(2), D(0), D(1), D(3), INF()}, o3, 6, 3 + th, {D(0), D(1)}, i3, false, 0, 0});
        add<U, double>(s, "3 models, different periods, 5 cycles, 3 deviations", {3, {D(1), D(2), INF()}, {{107}, {}, {101}, {104}}, 5, 3 + th, {D(1)}, i3, true, 0, 1});
        add<std::any, double>(s, "2 models, std::any values, 2 cycles", {2, t3, {{}, {103}, {101, 102}}, 2, 99, {D(1)}, {{}, {103}}, false, 0, 1});
        add<U, adevs::sd_time<double>>(s, "4 models, super dense, 5 cycles, 3 deviations", {4, {D(1), D(0), D(0, 1), D(2), INF()}, subset_menu(100, 4), 5, 2 + th, {D(0), D(1)}, i3, false, 0, 0});
        s.push_back({"1 Moore, 1 Mealy, all behaviours, 2 cycles", [=] { mixed<U, double>({1, 1, t3, 2, 99, {D(0), D(1)}, {{}, {41}, {1}}, true}); }});
        s.push_back({"2 Moore, 1 Mealy, 3 cycles, 4 deviations", [=] { mixed<U, long>({2, 1, {D(1), D(0), D(2), INF()}, 3, 3 + th, {D(0), D(1)}, {{}, {41}, {40}}, true}); }});
        s.push_back({"1 Moore, 2 Mealy, super dense, 4 cycles, 3 deviations", [=] { mixed<U, adevs::sd_time<int>>({1, 2, {D(1), D(0), D(0, 1), INF()}, 4, 3, {D(0), D(0, 1)}, {{}, {41}, {1}}, false}); }});
        s.push_back({"2 Moore, 2 Mealy, 5 cycles, 2 deviations", [=] { mixed<std::any, double>({2, 2, {D(1), D(2), INF()}, 5, 2 + th, {D(1)}, {{}, {41}, {40}}, false}); }});
        s.push_back({"254-2100 models at once", [] { crowd<double>(); }});
        s.push_back({"60-300 models, 12 cycles", [] { many<double>(); }});
        s.push_back({"60-300 models, super dense, 12 cycles", [] { many<adevs::sd_time<int>>(); }});
        if (th) {
            add<U, double>(s, "3 models, all behaviours, 2 cycles", {3, t3, o3, 2, 99, {D(0), D(1)}, i3, false, 0, 1});
            add<U, double>(s, "2 models, all behaviours, 3 cycles", {2, t3, o2, 3, 99, {D(1)}, {{}, {103}}, false, 0, 1});
        }
    });
}
