// C05: every sequence of graph operations against a reference that keeps counted edges.
#include "simlab.h"
using namespace lab;
using W = World<unsigned long, double>;

static void compare(W& w, int M, std::vector<int> const& pins) {
    mc::compared();
    std::set<int> want, got;
    for (auto& m : w.rg.models) want.insert(m.first);
    for (auto& m : w.graph->get_atomics()) { int id = w.idof(m.get()); if (id < 0) mc::fail("get_atomics holds an unknown model"); got.insert(id); }
    if (want != got || got.size() != w.graph->get_atomics().size()) mc::fail("get_atomics has %zu models, expected %zu (or others)", got.size(), want.size());
    uint64_t h = 1;
    for (int p : pins) {
        std::list<std::pair<adevs::pin_t, std::shared_ptr<W::Atom>>> l;
        w.graph->route(pin(p), l);
        std::vector<std::pair<int, int>> a, b;
        for (auto& x : l) a.push_back({pin_index(x.first), w.idof(x.second.get())});
        w.rg.route(p, b);
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (a != b) {
            std::string s; for (auto& x : a) s += " p" + std::to_string(x.first) + ">m" + std::to_string(x.second);
            s += "; expected:"; for (auto& x : b) s += " p" + std::to_string(x.first) + ">m" + std::to_string(x.second);
            mc::fail("pin %d is routed to:%s", p, s.c_str());
        }
    }
    for (auto& e : w.rg.pa) h = mc::mix(h, e.first.first * 100 + e.first.second * 10 + e.second);
    for (auto& e : w.rg.pp) h = mc::mix(h, e.first.first * 1000 + e.first.second * 10 + e.second);
    for (auto& m : w.rg.models) h = mc::mix(h, m.first * 77 + m.second);
    mc::state(h);
}
static std::vector<Op> alphabet(int M, int P) {
    std::vector<Op> o;
    for (int m = 0; m < M; m++) { o.push_back({ADD, m, 0}); o.push_back({REM, m, 0}); }
    for (int p = 0; p < P; p++) {
        o.push_back({RPIN, p, 0});
        for (int q = p + 1; q < P; q++) { o.push_back({CPP, p, q}); o.push_back({DPP, p, q}); }
        for (int m = 0; m < M; m++) { o.push_back({CPA, p, m}); o.push_back({DPA, p, m}); }
    }
    return o;
}
static void make(W& w, int M) { w.make(std::vector<Spec>(M, Spec{false, {INF()}}), {}); }

// all sequences from the graph that `init` builds
static void seq(int M, int P, int depth, std::vector<Op> init, bool each) {
    W w; make(w, M);
    std::vector<int> pins; for (int p = 0; p < P; p++) pins.push_back(p);
    for (auto o : init) w.setup(o);
    auto al = alphabet(M, P);
    for (int d = 0; d < depth; d++) {
        Op o = mc::pick(al); mc::step();
        mc::trace("  %s", str(o).c_str());
        w.setup(o);
        if (each || d + 1 == depth) compare(w, M, pins);
    }
}
// provisional mode only queues, in order
static void provisional(int depth) {
    W w; make(w, 2);
    std::vector<int> pins = {0, 1};
    for (Op o : std::vector<Op>{{ADD, 0, 0}, {CPA, 0, 0}, {CPP, 0, 1}, {CPA, 1, 1}}) w.setup(o);
    w.graph->set_provisional(true);
    auto al = alphabet(2, 2);
    std::vector<Op> q;
    for (int d = 0; d < depth; d++) { Op o = mc::pick(al); mc::step(); w.apply(*w.graph, o); q.push_back(o); compare(w, 2, pins); }
    auto& pend = w.graph->get_pending();
    if (pend.size() != q.size()) mc::fail("%zu operations are pending, %zu were requested", pend.size(), q.size());
    size_t i = 0;
    using G = W::G;
    static const G::pending_op kind[] = {G::ADD_ATOMIC, G::REMOVE_ATOMIC, G::REMOVE_PIN, G::CONNECT_PIN_TO_PIN, G::DISCONNECT_PIN_FROM_PIN, G::CONNECT_PIN_TO_ATOMIC, G::DISCONNECT_PIN_FROM_ATOMIC};
    for (auto& p : pend) {
        Op o = q[i++]; bool ok = p.op == kind[o.k];
        if (o.k >= RPIN) ok = ok && p.pin[0] == pin(o.a);
        if (o.k == CPP || o.k == DPP) ok = ok && p.pin[1] == pin(o.b);
        if (o.k == ADD || o.k == REM) ok = ok && p.model == w.mod[o.a];
        if (o.k == CPA || o.k == DPA) ok = ok && p.model == w.mod[o.b];
        if (!ok) mc::fail("pending operation %zu is not %s", i - 1, str(o).c_str());
    }
    pend.clear();
}
// long chains, trees and ladders of pins
static void shapes() {
    W w; int M = 4; make(w, M);
    for (int m = 0; m < M; m++) w.setup({ADD, m, 0});
    int shape = mc::choose(3), n = mc::pick(std::vector<int>{2, 7, 12, 60});
    if (shape == 1 && n > 12) n = 11;
    std::vector<int> pins;
    for (int i = 0; i < n; i++) pins.push_back(i);
    if (shape == 0) for (int i = 0; i + 1 < n; i++) w.setup({CPP, i, i + 1});
    if (shape == 1) for (int i = 0; i + 1 < n; i++) { w.setup({CPP, i, i + 1}); if (i + 2 < n) w.setup({CPP, i, i + 2}); }
    if (shape == 2) for (int i = 0; 2 * i + 2 < n; i++) { w.setup({CPP, i, 2 * i + 1}); w.setup({CPP, i, 2 * i + 2}); }
    for (int i = 0; i < n; i++) if (i % 3 != 1) w.setup({CPA, i, i % M});
    w.setup({CPA, n - 1, 0}); w.setup({CPA, n - 1, 0});
    compare(w, M, pins);
    auto al = std::vector<Op>{{RPIN, n / 2, 0}, {RPIN, n - 1, 0}, {REM, 0, 0}, {REM, 2, 0}, {DPP, n / 2 - 1, n / 2}, {CPP, n / 2 - 1, n / 2}, {DPA, n - 1, 0}, {CPA, 0, 3}, {ADD, 0, 0}, {RPIN, 0, 0}};
    for (int d = 0; d < 4; d++) { Op o = mc::pick(al); mc::step(); mc::trace("  %s", str(o).c_str()); w.setup(o); compare(w, M, pins); }
}
int main(int c, char** v) {
    return mc::main_(c, v, "C05", [](std::vector<mc::Scenario>& s, bool th) {
        std::vector<Op> full = {{ADD, 0, 0}, {ADD, 1, 0}, {CPP, 0, 1}, {CPP, 1, 2}, {CPP, 0, 2}, {CPA, 2, 0}, {CPA, 2, 1}, {CPA, 1, 1}};
        std::vector<Op> twice = full; for (auto o : full) twice.push_back(o);
        s.push_back({"1 model, 2 pins, from empty", [] { seq(1, 2, 6, {}, false); }});
        s.push_back({"2 models, 2 pins, from empty", [th] { seq(2, 2, 5 + th, {}, false); }});
        s.push_back({"2 models, 3 pins, from empty", [th] { seq(2, 3, 4 + th, {}, false); }});
        s.push_back({"2 models, 3 pins, from a full graph", [full, th] { seq(2, 3, 4 + th, full, true); }});
        s.push_back({"2 models, 3 pins, from a graph with counts of two", [twice, th] { seq(2, 3, 4, twice, true); }});
        s.push_back({"3 models, 4 pins, from a full graph", [full] { auto f = full; f.push_back({ADD, 2, 0}); f.push_back({CPP, 2, 3}); f.push_back({CPA, 3, 2}); f.push_back({CPA, 3, 0}); seq(3, 4, 3, f, true); }});
        s.push_back({"provisional mode", [] { provisional(3); }});
        s.push_back({"chains, ladders and trees of 2-60 pins", shapes});
    });
}
