// C02: acyclic networks of Mealy models; the delivered outputs are those of a
// reference that evaluates the Mealy models once each, in topological order.
#include "simlab.h"
using namespace lab;

struct P {
    int k;                       // Mealy models
    std::vector<int> rules; bool onerule; bool twopins; int cycles; bool inject, recompute; int nsrc; bool zero;
};
// models: 0..nsrc-1 Moore sources, nsrc..nsrc+k-1 Mealy, nsrc+k Moore sink
template <class V, class T> void run(P const& p) {
    World<V, T> w;
    int S = p.nsrc, K = p.k, N = S + K + 1;
    std::vector<Spec> s(N);
    // memory order of the Mealy models; the sink and the sources lie before or after
    std::vector<int> perm = mc::permutation(K);
    std::vector<int> slot(N);
    for (int i = 0; i < S; i++) slot[i] = K + 2 + i;
    for (int i = 0; i < K; i++) slot[S + i] = 1 + perm[i];
    slot[N - 1] = K <= 3 && mc::flip() ? K + 2 + S : 0;
    int rule0 = p.onerule ? mc::pick(p.rules) : 0;
    for (int i = 0; i < S; i++) {
        s[i].ta = {D(1)};
        if (i == 0) s[i].out = subset_menu(200, K); else s[i].out = {{}, {201}, {200 + (1 << K) - 1}};
    }
    for (int i = 0; i < K; i++) {
        Spec& m = s[S + i];
        m.mealy = true; m.ta = {INF(), D(1)};
        if (p.zero) m.ta.push_back(D(0));
        m.rule = p.onerule ? rule0 : mc::pick(p.rules);
        m.mpins = {100 + i}; if (p.twopins) m.mpins.push_back(150 + i);
    }
    s[N - 1].ta = {INF()};
    w.make(s, slot);
    w.add_all();
    for (int i = 0; i < K; i++) for (int q = 0; q < (p.twopins ? 2 : 1); q++) {
        for (int j = i + 1; j < K; j++) if (mc::flip()) w.setup({CPA, (q ? 150 : 100) + i, S + j});
        w.setup({CPA, (q ? 150 : 100) + i, N - 1});
    }
    for (int m = 1; m < (1 << K); m++) for (int i = 0; i < K; i++) if (m >> i & 1) w.setup({CPA, 200 + m, S + i});
    w.start(0);
    w.listeners(1);
    for (int c = 0; c < p.cycles; c++) {
        RT t = w.ref_next();
        if (t.inf) break;
        Ins inj;
        if (p.recompute) {
            // an output computation that is superseded
            int a = mc::choose(3);
            if (a) {
                if (a == 2) { adevs::PinValue<V> x(pin(200 + (1 << K) - 1), mkv<V>(4242)); w.sim->injectInput(x); }
                w.impl_output();
            }
        }
        if (p.inject) { int m = mc::choose(1 << K); if (m) { inj.push_back({200 + m, mc::mix(5, c)}); } }
        w.cycle(t, inj);
    }
}

// a chain or a tower of diamonds of Mealy models, with several entries
void deep() {
    World<unsigned long, double> w;
    int K = mc::pick(std::vector<int>{5, 8, 12}), shape = mc::choose(3), order = mc::choose(3), rule = mc::pick(std::vector<int>{0, 1, 3, 4});
    if (rule == 3 && shape) K = 6;
    std::vector<Spec> s(K + 2); std::vector<int> slot(K + 2);
    s[0].ta = {D(1)}; s[0].out = {{300}}; s[K + 1].ta = {INF()};
    for (int i = 0; i < K; i++) { s[1 + i].mealy = true; s[1 + i].ta = {i % 3 == 1 ? D(1) : INF()}; s[1 + i].rule = rule; s[1 + i].mpins = {100 + i}; }
    for (int i = 0; i < K + 2; i++) slot[i] = order == 0 ? i : order == 1 ? K + 1 - i : (i * 7) % 40 + (i * 7) / 40 * 50;
    w.make(s, slot); w.add_all();
    for (int i = 0; i < K; i++) {
        w.setup({CPA, 100 + i, K + 1});
        int reach = shape == 0 ? 1 : shape == 1 ? 2 : 3;
        for (int d = 1; d <= reach && i + d < K; d++) w.setup({CPA, 100 + i, 1 + i + d});
    }
    int entry = mc::choose(3);
    w.setup({CPA, 300, 1}); if (entry >= 1) w.setup({CPA, 300, 1 + K / 2}); if (entry == 2) w.setup({CPA, 300, K});
    w.start(0); w.listeners(1);
    for (int c = 0; c < 2; c++) w.cycle(w.ref_next(), {});
}

int main(int c, char** v) {
    return mc::main_(c, v, "C02", [](std::vector<mc::Scenario>& s, bool th) {
        using U = unsigned long;
        using SD = adevs::sd_time<int>;
        std::vector<int> all = {0, 1, 2, 3, 4, 5, 6, 7, 8};
        auto add = [&](std::string n, P p) { s.push_back({n, [p] { run<U, double>(p); }}); };
        add("2 Mealy, 2 cycles", {2, th ? all : std::vector<int>{1, 3, 6, 7}, false, false, 2, true, false, 1, th});
        add("2 Mealy, two pins, 2 cycles", {2, {0, 1, 5}, false, true, 2, false, false, 1, false});
        add("3 Mealy, different rules, 1 cycle", {3, th ? all : std::vector<int>{0, 1, 2, 4}, false, false, 1, false, false, 1, false});
        add("3 Mealy, two pins, 1 cycle", {3, {5, 1}, true, true, 1, false, false, 1, false});
        add("3 Mealy, one rule, injection, 1 cycle", {3, {1, 2, 4}, true, false, 1, true, false, 1, false});
        add("3 Mealy, one rule, two sources, 1 cycle", {3, {1, 2, 3, 4, 5}, true, false, 1, false, false, 2, false});
        add("2 Mealy, recomputed output, 2 cycles", {2, {1, 4}, !th, false, 2, true, true, 1, false});
        add("3 Mealy, recomputed output, 1 cycle", {3, {1, 4}, true, false, 1, true, true, 1, false});
        add("4 Mealy, one rule, 1 cycle", {4, th ? std::vector<int>{0, 1, 2, 4, 3} : std::vector<int>{1}, true, false, 1, false, false, 1, false});
        s.push_back({"2 Mealy, super dense clock, 2 cycles", [th] { run<U, SD>({2, {0, 1, 3}, !th, false, 2, true, false, 1, true}); }});
        s.push_back({"5-12 Mealy, chains and towers of diamonds", deep});
        if (th) add("3 Mealy, one rule, 2 cycles", {3, {1, 4}, true, false, 2, false, false, 1, false});
    });
}
