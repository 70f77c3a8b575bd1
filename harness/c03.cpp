// C03: every directed graph of Mealy models; the exception is thrown exactly when
// the events of the cycle reach a loop that consists of Mealy models only.
#include "simlab.h"
using namespace lab;

template <class W> struct Judge {
    W& w; int S, K;
    // expected: closure of the triggered models over models that emit; loop inside it?
    std::set<int> closure; bool loop = false;
    void compute(std::set<int> trig, std::vector<std::set<int>> const& succ, std::function<bool(int)> emits) {
        std::vector<int> todo(trig.begin(), trig.end());
        closure = trig;
        while (!todo.empty()) { int a = todo.back(); todo.pop_back(); if (emits(a)) for (int b : succ[a]) if (closure.insert(b).second) todo.push_back(b); }
        // Kahn on the emitting part
        std::map<int, int> indeg; for (int a : closure) indeg[a]; for (int a : closure) if (emits(a)) for (int b : succ[a]) indeg[b]++;
        size_t done = 0; std::vector<int> q; for (auto& p : indeg) if (!p.second) q.push_back(p.first);
        while (!q.empty()) { int a = q.back(); q.pop_back(); done++; if (emits(a)) for (int b : succ[a]) if (--indeg[b] == 0) q.push_back(b); }
        loop = done != closure.size();
    }
};
// run one cycle; returns true when it threw
template <class W> bool cyc(W& w) {
    w.clear_log();
    try { w.impl_output(); }
    catch (adevs::exception& e) {
        mc::trace("  exception: %s", e.what());
        if (!w.tr.empty()) mc::fail("states changed before the exception");
        return true;
    }
    w.impl_state();
    return false;
}

struct P { int k; bool selfloops, rules, moore; int cycles; bool inject; bool again = false, imm = true; };
template <class V, class T> void run(P const& p) {
    World<V, T> w;
    int K = p.k, N = K + 2;          // 0 source, 1..K Mealy, K+1 Moore in the network
    std::vector<Spec> s(N);
    std::vector<int> perm = mc::permutation(K), slot(N);
    slot[0] = 9; slot[N - 1] = 0; for (int i = 0; i < K; i++) slot[1 + i] = 1 + perm[i];
    s[0].ta = {D(1)}; s[0].out = subset_menu(200, K);
    std::vector<bool> em(K, true);
    for (int i = 0; i < K; i++) {
        if (p.rules) em[i] = !mc::flip();
        s[1 + i].mealy = true; s[1 + i].ta = {INF(), D(1)}; if (!p.imm) s[1 + i].ta = {INF()}; s[1 + i].rule = em[i] ? 0 : 8; s[1 + i].mpins = {100 + i};
    }
    s[N - 1].ta = {INF()}; 
    if (p.moore) { s[N - 1].ta = {D(1)}; s[N - 1].out = {{300}}; }
    w.make(s, slot); w.add_all();
    std::vector<std::set<int>> succ(K);
    for (int i = 0; i < K; i++) {
        w.setup({CPA, 100 + i, N - 1});
        for (int j = 0; j < K; j++) if ((i != j || p.selfloops) && mc::flip()) {
            succ[i].insert(j);
            if ((i + j) % 2) w.setup({CPA, 100 + i, 1 + j});
            else { w.setup({CPP, 100 + i, 400 + 8 * i + j}); w.setup({CPA, 400 + 8 * i + j, 1 + j}); }  // over a pin
        }
    }
    for (int m = 1; m < (1 << K); m++) for (int i = 0; i < K; i++) if (m >> i & 1) w.setup({CPA, 200 + m, 1 + i});
    if (p.moore) w.setup({CPA, 300, 1});
    w.start(0);
    for (int c = 0; c < p.cycles; c++) {
        RT t = w.ref_next(); mc::step();
        auto imm = w.ref_imm(t);
        w.oplog.clear();
        // the output may be computed again, with other inputs, also after an exception
        for (bool first = true;; first = false) {
            std::map<int, int> external;      // events from outside the Mealy models
            if (p.inject) { int m = mc::choose(1 << K); if (m) { adevs::PinValue<V> x(pin(200 + m), mkv<V>(1)); w.sim->injectInput(x); for (int i = 0; i < K; i++) if (m >> i & 1) external[i]++; } }
            w.clear_log();
            bool threw = false;
            try { w.impl_output(); }
            catch (adevs::exception& e) { mc::trace("  exception: %s", e.what()); threw = true; }
            if (!w.tr.empty()) mc::fail("states change while output is computed");
            std::set<int> trig;
            for (int id : imm) {
                if (id >= 1 && id <= K) trig.insert(id - 1);
                else for (auto& y : w.moore(id, w.rm[id].n)) { std::vector<std::pair<int, int>> r; w.rg.route(y.pin, r); for (auto& q : r) if (q.second >= 1 && q.second <= K) external[q.second - 1]++; }
            }
            for (auto& e : external) trig.insert(e.first);
            Judge<World<V, T>> j{w, 1, K}; j.compute(trig, succ, [&](int a) { return em[a]; });
            mc::compared(); mc::count(j.loop ? "cycles with a loop" : "cycles without a loop");
            mc::state(mc::mix(mc::mix(w.fingerprint(), j.closure.size()), j.loop));
            if (threw != j.loop) mc::fail(j.loop ? "an event travels around a loop of Mealy models and no exception is thrown" : "an exception is thrown although no event travels around a loop of Mealy models");
            if (first && p.again && mc::flip()) { mc::trace("  output computed again"); continue; }
            if (threw) return;
            w.impl_state();
            std::map<int, size_t> want, got;   // model -> number of inputs
            for (int id : imm) want[id];
            for (int a : j.closure) { want[1 + a] += external.count(a) ? external[a] : 0; if (em[a]) { want[N - 1]++; for (int b : succ[a]) want[1 + b]++; } }
            for (auto& t : w.tr) { if (got.count(t.id)) mc::fail("m%d changes state twice", t.id); got[t.id] = t.in.size(); }
            if (got != want) mc::fail("%zu models change state, expected %zu, or one of them with the wrong number of inputs", got.size(), want.size());
            break;
        }
        // keep the reference clocks
        RT after = radd<T>(t, reps<T>());
        w.refside = true;
        for (auto& r : w.tr) { auto& m = w.rm[r.id]; m.n++; m.tL = after; m.tN = radd<T>(after, w.ta(r.id, m.n)); }
        w.refside = false; w.rtime = after;
    }
}

// acyclic networks whose outputs come and go with the input: no exception, ever
template <class V, class T> void dag(int K, std::vector<int> rules, int cycles, bool full, bool moore) {
    World<V, T> w;
    int N = K + 2;          // 0 source, 1..K Mealy in topological order, K+1 a Moore model that everything reaches
    std::vector<Spec> s(N);
    std::vector<int> perm = mc::permutation(K), slot(N);
    slot[0] = 9; slot[N - 1] = 0; for (int i = 0; i < K; i++) slot[1 + i] = 1 + perm[i];
    s[0].ta = {D(1)}; s[0].out = subset_menu(200, K);
    for (int i = 0; i < K; i++) {
        s[1 + i].mealy = true; s[1 + i].ta = {INF(), D(1)}; s[1 + i].mpins = {100 + i, 120 + i};
        s[1 + i].rule = i + 1 < K || full ? rules[mc::choose((int)rules.size())] : 0;
    }
    s[N - 1].ta = {INF()};
    if (moore) { s[N - 1].ta = {D(1)}; s[N - 1].out = {{300}}; }   // closes loops that are broken by this model
    w.make(s, slot); w.add_all();
    for (int i = 0; i < K; i++) {
        w.setup({CPA, 100 + i, N - 1});
        for (int j = i + 1; j < K; j++) {
            int how = full ? mc::choose(3) : j == i + 1 && K > 3 ? 1 : mc::choose(2);   // none, first pin, second pin
            if (how == 1) w.setup({CPA, 100 + i, 1 + j});
            if (how == 2) w.setup({CPA, 120 + i, 1 + j});
        }
    }
    for (int m = 1; m < (1 << K); m++) for (int i = 0; i < K; i++) if (m >> i & 1) w.setup({CPA, 200 + m, 1 + i});
    if (moore) w.setup({CPA, 300, 1});
    w.start(0);
    for (int c = 0; c < cycles; c++) {
        RT t = w.ref_next(); mc::step();
        w.oplog.clear();
        bool threw = cyc(w);
        mc::compared(); mc::count("cycles without a loop");
        if (threw) mc::fail("an exception is thrown although the Mealy models form no loop");
        RT after = radd<T>(t, reps<T>());
        w.refside = true;
        for (auto& r : w.tr) { auto& m = w.rm[r.id]; m.n++; m.tL = after; m.tN = radd<T>(after, w.ta(r.id, m.n)); }
        w.refside = false; w.rtime = after;
        mc::state(mc::mix(w.fingerprint(), w.tr.size()));
    }
}

// long rings, possibly broken, possibly with a chord, closed while running
void ring(bool th) {
    using W = World<unsigned long, double>;
    W w;
    int K = mc::pick(th ? std::vector<int>{1, 2, 3, 5, 8, 13, 40, 90} : std::vector<int>{1, 2, 5, 13, 40}), order = mc::choose(3), brk = mc::choose(4), entry = mc::choose(3), chord = mc::choose(2);
    // brk: 0 closed, 1 a Moore model in the ring, 2 a silent Mealy, 3 closed by a structure change during the first cycle
    std::vector<Spec> s(K + 2); std::vector<int> slot(K + 2);
    s[0].ta = {D(1)}; s[0].out = {{300}}; s[K + 1].ta = {INF()};
    int at = K / 2;
    for (int i = 0; i < K; i++) { s[1 + i].mealy = true; s[1 + i].ta = {i % 4 == 3 ? D(1) : INF()}; s[1 + i].rule = 0; s[1 + i].mpins = {100 + i}; }
    if (brk == 1) { s[1 + at].mealy = false; s[1 + at].ta = {D(1)}; s[1 + at].out = {{100 + at}}; }
    if (brk == 2) s[1 + at].rule = 8;
    for (int i = 0; i < K + 2; i++) slot[i] = order == 0 ? i : order == 1 ? K + 1 - i : (i * 7) % 100 + (i * 7) / 100 * 130;
    if (brk == 3) { s[0].ops = {{{CPA, 100 + K - 1, 1}}}; }
    w.make(s, slot); w.add_all();
    for (int i = 0; i < K; i++) { w.setup({CPA, 100 + i, K + 1}); if (i + 1 < K || brk != 3) w.setup({CPA, 100 + i, 1 + (i + 1) % K}); }
    if (chord && K > 4) w.setup({CPA, 100, 1 + 2});
    w.setup({CPA, 300, 1}); if (entry >= 1) w.setup({CPA, 300, 1 + K / 3}); if (entry == 2) w.setup({CPA, 300, K});
    w.start(0);
    bool threw = cyc(w); mc::compared(); mc::step();
    if (brk == 0 && !threw) mc::fail("a ring of %d Mealy models is not rejected", K);
    if (brk != 0 && threw) mc::fail("a ring of %d models that is broken (%d) is rejected", K, brk);
    if (brk == 3) {
        if (!cyc(w)) mc::fail("a ring of %d Mealy models closed while running is not rejected", K);
    } else if (brk) { if (cyc(w)) mc::fail("a broken ring of %d models is rejected in its second cycle", K); }
    mc::state(mc::mix(mc::mix(K, brk * 10 + entry), order * 2 + chord));
}

// a chain of Mealy models that leads into a ring or into a diamond
void tail(bool th) {
    World<unsigned long, double> w;
    int A = mc::pick(th ? std::vector<int>{1, 2, 7, 13, 20, 70} : std::vector<int>{1, 7, 20, 40}), R = mc::pick(std::vector<int>{1, 2, 3, 9}), order = mc::choose(3), kind = mc::choose(3), n = A + R;
    // kind: 0 a ring at the end, 1 no ring, the end reached over two ways, 2 a ring at the end after a Moore model
    std::vector<Spec> s(n + 1); std::vector<int> slot(n + 1);
    s[0].ta = {D(1)}; s[0].out = {{300}};
    for (int i = 1; i <= n; i++) { s[i].mealy = true; s[i].ta = {i % 5 == 3 ? D(1) : INF()}; s[i].rule = 0; s[i].mpins = {100 + i}; }
    if (kind == 2) { s[A].mealy = false; s[A].ta = {D(1), D(2)}; s[A].out = {{}}; }
    for (int i = 0; i <= n; i++) slot[i] = order == 0 ? i : order == 1 ? n - i : (i * 7) % 100 + (i * 7) / 100 * 130;
    w.make(s, slot); w.add_all();
    w.setup({CPA, 300, 1});
    for (int i = 1; i < n; i++) w.setup({CPA, 100 + i, i + 1});
    if (kind != 1) w.setup({CPA, 100 + n, A + 1}); else if (A > 2) w.setup({CPA, 101, n});
    w.start(0);
    bool threw = cyc(w); mc::compared(); mc::step();
    bool active = false; for (int i = A + 1; i <= n; i++) if (i % 5 == 3) active = true;   // the ring is entered by a model in it
    if (kind == 0 && !threw) mc::fail("a ring of %d behind a chain of %d Mealy models is not rejected", R, A);
    if (kind == 1 && threw) mc::fail("a chain of %d Mealy models without a ring is rejected", n);
    if (kind == 2 && threw != active) mc::fail("a ring of %d behind a Moore model is %srejected", R, threw ? "" : "not ");
    mc::state(mc::mix(A * 100 + R, order * 10 + kind));
}

int main(int c, char** v) {
    return mc::main_(c, v, "C03", [](std::vector<mc::Scenario>& s, bool th) {
        using U = unsigned long;
        auto add = [&](std::string n, P p) { s.push_back({n, [p] { run<U, double>(p); }}); };
        add("2 Mealy, all graphs with self loops, 2 cycles", {2, true, true, false, 2, true});
        add("3 Mealy, all graphs with self loops", {3, true, false, false, 1, false});
        add("3 Mealy, all graphs, silent models", {3, false, true, false, 1, false});
        add("3 Mealy, all graphs, 2 cycles", {3, false, false, false, 2, false});
        add("3 Mealy, all graphs, with a Moore model in the loop", {3, false, false, true, 1, true});
        add("2 Mealy, output computed again", {2, true, true, true, 2, true, true, th});
        add("3 Mealy, output computed again", {3, false, th, false, 1, true, true, th});
        if (th) add("4 Mealy, all graphs", {4, false, false, false, 1, false});
        s.push_back({"2 Mealy, super dense clock", [] { run<U, adevs::sd_time<int>>({2, true, true, false, 2, false}); }});
        s.push_back({"3 Mealy, no loop, outputs that depend on the input", [th] { dag<U, double>(3, th ? std::vector<int>{0, 1, 2, 4, 5, 7} : std::vector<int>{1, 4, 5}, 1, true, false); }});
        s.push_back({"3 Mealy, no loop, outputs that depend on the input, 2 cycles", [th] { dag<U, double>(3, th ? std::vector<int>{1, 2, 4} : std::vector<int>{1, 4}, 2, false, true); }});
        s.push_back({"4 Mealy, no loop, outputs that depend on the input", [th] { dag<U, double>(4, th ? std::vector<int>{0, 1, 2, 4} : std::vector<int>{1, 4}, 1, false, false); }});
        s.push_back({"rings of 1-90 models", [th] { ring(th); }});
        s.push_back({"chains of 1-70 models that end in a ring or not", [th] { tail(th); }});
    });
}
