// C06: hierarchies of coupled models against the flat network they stand for.
#include "simlab.h"
using namespace lab;
using U = unsigned long;

// reference: what each coupled model holds
struct RC { std::set<int> at, co; std::set<std::pair<int, int>> pa, pp; };
enum CK { AT = CUSTOM, ATX, CO, COX, PA, PAX, PP, PPX };   // a = coupled model, b/c = operands; X removes

template <class T> struct Hier {
    World<U, T> w; using C = adevs::Coupled<U, T>;
    std::vector<std::shared_ptr<C>> cp; std::vector<RC> rc;
    bool stop = false;
    Hier(int nc) { for (int i = 0; i < nc; i++) cp.push_back(std::make_shared<C>()); rc.resize(nc); }
    void impl(Op o) {
        C& c = *cp[o.a];
        switch ((int)o.k) {
            case AT: c.add_atomic(w.mod[o.b]); break;
            case ATX: c.remove_atomic(w.mod[o.b]); break;
            case CO: c.add_coupled_model(cp[o.b]); break;
            case COX: c.remove_coupled_model(cp[o.b]); break;
            case PA: c.create_coupling(pin(o.b), w.mod[o.c]); break;
            case PAX: c.remove_coupling(pin(o.b), w.mod[o.c]); break;
            case PP: c.create_coupling(pin(o.b), pin(o.c)); break;
            case PPX: c.remove_coupling(pin(o.b), pin(o.c)); break;
        }
    }
    void flat(int c, RefGraph& g) {
        for (int m : rc[c].at) g.models[m]++;
        for (auto& e : rc[c].pa) g.pa[e]++;
        for (auto& e : rc[c].pp) g.pp[e]++;
        for (int d : rc[c].co) flat(d, g);
    }
    void ref(Op o) {
        RC& c = rc[o.a];
        switch ((int)o.k) {
            case AT: c.at.insert(o.b); break;
            case ATX: c.at.erase(o.b); for (auto i = c.pa.begin(); i != c.pa.end();) i = i->second == o.b ? c.pa.erase(i) : std::next(i); break;
            case CO: c.co.insert(o.b); break;
            case COX: c.co.erase(o.b); break;
            case PA: c.pa.insert({o.b, o.c}); break;
            case PAX: c.pa.erase({o.b, o.c}); break;
            case PP: c.pp.insert({o.b, o.c}); break;
            case PPX: c.pp.erase({o.b, o.c}); break;
        }
    }
    bool left_behind(RefGraph const& before, RefGraph const& after) {
        // a model left while a coupling to it stays somewhere: the user's error
        for (auto& m : before.models) if (!after.models.count(m.first)) for (auto& e : after.pa) if (e.first.second == m.first) return true;
        return false;
    }
    void setup() {
        w.custom_request = [this](Op o) { impl(o); };
        w.custom_ref = [this](Op o, RT after) {
            RefGraph g; ref(o); flat(0, g);
            if (left_behind(w.rg, g)) stop = true;
            for (auto& m : g.models) if (!w.rg.models.count(m.first)) { auto& r = w.rm[m.first]; r.tL = after; r.tN = radd<T>(after, w.ta(m.first, r.n)); }
            w.rg = g;
        };
    }
    void before(Op o) { mc::trace("  before the start: %s", str(o).c_str()); impl(o); ref(o); }
    void start() { w.rg = RefGraph(); flat(0, w.rg); w.start(1, cp[0]); w.listeners(1); }
};
static Op O(int k, int a, int b, int c = 0) { return Op{(OpKind)k, a, b, c}; }

static std::vector<Op> alphabet(int nm, bool full) {
    std::vector<Op> o;
    for (int c = 0; c < 3; c++) for (int m = 0; m < nm; m++) { o.push_back(O(AT, c, m)); o.push_back(O(ATX, c, m)); o.push_back(O(PA, c, 10 + m, m)); o.push_back(O(PAX, c, 10 + m, m)); }
    for (auto e : std::vector<std::pair<int, int>>{{0, 1}, {0, 2}, {1, 2}}) { o.push_back(O(CO, e.first, e.second)); o.push_back(O(COX, e.first, e.second)); }
    for (int c = 0; c < 3; c++) for (int i = 0; i < nm; i++) { o.push_back(O(PP, c, i, 10 + (i + 1) % nm)); o.push_back(O(PPX, c, i, 10 + (i + 1) % nm)); }
    return o;
}
// initial hierarchy number k over 3 models: 0 = top, 1 = A, 2 = B
static std::vector<Op> initial(int k) {
    std::vector<Op> o = {O(AT, 0, 0), O(PA, 0, 10, 0)};
    bool b_in_top = k & 1, b_in_a = k & 2, shared = k & 4;
    o.push_back(O(CO, 0, 1)); o.push_back(O(AT, 1, 1)); o.push_back(O(PA, 1, 11, 1)); o.push_back(O(PP, 0, 0, 11)); o.push_back(O(PP, 0, 1, 10));
    o.push_back(O(AT, 2, 2)); o.push_back(O(PA, 2, 12, 2)); o.push_back(O(PP, 1, 1, 12));
    if (b_in_top) o.push_back(O(CO, 0, 2));
    if (b_in_a) o.push_back(O(CO, 1, 2));
    if (shared) { o.push_back(O(AT, 2, 1)); o.push_back(O(PA, 2, 11, 1)); o.push_back(O(PP, 2, 0, 11)); o.push_back(O(PP, 2, 2, 10)); }
    return o;
}
// nops operations, each before the start or in one of the cycles, by the user or by model 0
template <class T> void run(int nops, int cycles, std::vector<int> kinds, bool dup, bool bymodel, bool mealy = false) {
    Hier<T> h(3); auto& w = h.w;
    std::vector<Spec> s(3);
    for (int i = 0; i < 3; i++) { s[i].ta = {D(i == 2 ? 2 : 1)}; s[i].out = {{i}}; }
    if (mealy) { s[2].mealy = true; s[2].mpins = {2}; s[2].rule = 3; }   // its outputs only reach model 0
    w.make(s); h.setup();
    for (Op o : initial(mc::pick(kinds))) h.before(o);
    auto al = alphabet(3, true);
    std::vector<std::vector<Op>> at(cycles + 1);
    int when = 0;
    for (int i = 0; i < nops; i++) {
        when += mc::choose(cycles + 1 - when);
        Op o = mc::pick(al);
        at[when].push_back(o); if (dup && mc::flip()) at[when].push_back(o);
    }
    for (Op o : at[0]) h.before(o);
    { RefGraph g; h.flat(0, g); for (auto& e : g.pa) if (!g.models.count(e.first.second)) { mc::count("stopped: coupling to an absent model"); return; } }
    h.start();
    auto dangling = [&] { if (h.stop || w.dangling()) { mc::count("stopped: coupling to an absent model"); return true; } return false; };
    for (int c = 1; c <= cycles; c++) {
        RT t = w.ref_next();
        if (t.inf) t = radd<T>(w.rtime, D(1));
        if (w.sim->nextEventTime() == adevs_inf<T>()) w.sim->setNextTime(Clock<T>::to(t));
        bool m0 = bymodel && w.rg.models.count(0) && w.rm[0].tN == t;
        if (m0) { w.spec[0].ops.assign(1, at[c]); }
        else { w.spec[0].ops.clear(); for (Op o : at[c]) { w.oplog.push_back(o); mc::trace("  the user requests %s", str(o).c_str()); w.request(o); } }
        w.cycle(t, {});
        w.spec[0].ops.clear();
        if (dangling()) return;
    }
    // show the couplings: an event into every pin
    for (int p : {0, 1, 2, 10, 11, 12}) {
        RT t = w.ref_next(); if (t.inf) { t = radd<T>(w.rtime, D(1)); w.sim->setNextTime(Clock<T>::to(t)); }
        w.cycle(t, {{p, 5ul + p}});
    }
}
// a tower of coupled models, changed at some level while running
static void tower() {
    int L = mc::pick(std::vector<int>{1, 2, 4, 9}), share = mc::choose(2), through = mc::choose(2);
    Hier<double> h(L + 1); auto& w = h.w;
    std::vector<Spec> s(L + 1);
    for (int i = 0; i <= L; i++) { s[i].ta = {D(1 + i % 3)}; s[i].out = {{i}}; }
    w.make(s); h.setup();
    for (int i = 0; i <= L; i++) {
        if (i) h.before(O(CO, i - 1, i));
        if (share && i > 1) h.before(O(CO, i - 2, i));     // reached over two paths: 2^... instances
        h.before(O(AT, i, i)); h.before(O(PA, i, 100 + i, i)); if (i < L) h.before(O(PP, i, i, 100 + i + 1)); else h.before(O(PP, i, i, 100));
        if (through && i < L) { h.before(O(PP, i, 100 + i, 100 + i + 1)); h.before(O(PP, i, 200 + i + 1, 200 + i)); }   // from the outside to the innermost and back
        if (through && i == L) h.before(O(PP, i, i, 200 + i));
        if (through && i == 0) { h.before(O(PP, 0, 200, 300)); h.before(O(PA, 0, 300, 0)); }
    }
    h.start();
    int lvl = mc::choose(L + 1), kind = mc::choose(5);
    std::vector<Op> ops;
    if (kind == 0 && lvl) ops = {O(COX, lvl - 1, lvl)};
    if (kind == 1) ops = {O(ATX, lvl, lvl)};
    if (kind == 2 && lvl) ops = {O(COX, lvl - 1, lvl), O(CO, 0, lvl)};
    if (kind == 3) ops = {O(PP, lvl, lvl, 100 + lvl), O(PAX, lvl, 100 + lvl, lvl)};
    if (kind == 4) ops = {O(AT, 0, lvl), O(ATX, lvl, lvl)};
    w.cycle(w.ref_next(), {});
    for (Op o : ops) { w.oplog.push_back(o); w.request(o); }
    for (int c = 0; c < 4; c++) { RT t = w.ref_next(); if (t.inf) return; w.cycle(t, {}); if (h.stop || w.dangling()) return; }
}
int main(int c, char** v) {
    return mc::main_(c, v, "C06", [](std::vector<mc::Scenario>& s, bool th) {
        std::vector<int> all = {0, 1, 2, 3, 4, 5, 6, 7};
        s.push_back({"1 operation, all hierarchies, 3 cycles", [=] { run<double>(1, 3, all, true, false); }});
        s.push_back({"2 operations, all hierarchies, 2 cycles", [=] { run<double>(2, 2, all, false, false); }});
        s.push_back({"2 operations by a model, all hierarchies, 3 cycles", [=] { run<adevs::sd_time<int>>(2, 3, all, false, true); }});
        s.push_back({"2 operations, repeated, 1 cycle", [=] { run<double>(2, 1, all, true, false); }});
        s.push_back({"3 operations, 1 cycle", [=] { run<double>(3, 1, th ? all : std::vector<int>{3, 7}, false, false); }});
        s.push_back({"2 operations, one model is a Mealy model, 2 cycles", [=] { run<double>(2, 2, th ? all : std::vector<int>{1, 2, 4, 7}, false, false, true); }});
        s.push_back({"1 operation by a model, one model is a Mealy model, 3 cycles", [=] { run<adevs::sd_time<double>>(1, 3, all, true, true, true); }});
        if (th) s.push_back({"3 operations, 2 cycles", [=] { run<double>(3, 2, {3, 7, 5}, false, false); }});
        s.push_back({"towers of 2-10 levels", tower});
    });
}
