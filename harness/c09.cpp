// C09: every sequence of calls an external driver may make.
#include "simlab.h"
using namespace lab;

struct P { int moore, mealy; std::vector<RT> ta; int depth, dev; std::vector<RT> early; bool sense; std::vector<std::vector<Op>> ops; };
template <class V, class T> void run(P const& p) {
    World<V, T> w; w.dev = p.dev;
    int N = p.moore + p.mealy;
    std::vector<Spec> s(N);
    for (int i = 0; i < N; i++) {
        s[i].ta = p.ta; s[i].ops = p.ops;
        if (i >= p.moore) { s[i].mealy = true; s[i].rule = i % 2 ? 1 : 3; s[i].mpins = {i}; }
        else s[i].out = {{i}, {}};
    }
    w.make(s); w.add_all();
    for (int i = 0; i < N; i++) {
        for (int j = 0; j < N; j++) if (i < p.moore ? j == (i + 1) % N : (j == 0 || j > i)) w.setup({CPA, i, j});
        w.setup({CPA, 20, i});
    }
    w.setup({CPA, 21, N - 1});
    w.start(0); w.listeners(1);
    Ins pending; std::vector<u64> vals; int ninj = 0;
    RT next = w.ref_next();   // the next event time as the driver left it
    bool computed = false; Ins used; RT at;
    w.outs.clear();
    auto unchanged = [&] {
        mc::compared();
        if (!w.tr.empty()) mc::fail("a model changes state although no state was computed");
        RT tn = Clock<T>::from(w.sim->nextEventTime());
        if (tn != next) mc::fail("the next event time is %s, expected %s", tn.str().c_str(), next.str().c_str());
    };
    auto check_out = [&](RT t, Ins const& inj, std::set<int> imm) {
        Expect x = w.ref_cycle(t, inj, true);
        w.compare_outs(x.outs); w.compare_moore_calls(t, x, imm);
        unchanged();
    };
    auto after_state = [&](RT t, Ins const& inj, RT ret, bool outs_too) {
        Expect x = w.ref_cycle(t, inj);
        w.compare_tr(x.tr); if (outs_too) w.compare_outs(x.outs);
        else if (!w.outs.empty()) mc::fail("outputs are reported when the state is computed");
        w.compare_after(x, ret); w.oplog.clear();
        next = w.ref_next(); computed = false;
    };
    for (int d = 0; d < p.depth; d++) {
        enum { INJ, INJ2, CLEAR, OUT, STATE, EXEC, SET };
        std::vector<std::pair<int, RT>> c = {{EXEC, RT()}, {OUT, RT()}, {INJ, RT()}, {INJ2, RT()}};
        if (!pending.empty()) c.push_back({CLEAR, RT()});
        if (computed) c.push_back({STATE, RT()});
        for (RT e : p.early) { RT t = radd<T>(w.rtime, e); if (t < next) c.push_back({SET, t}); }
        if (next.inf) {  // nothing to execute; computing output is harmless
            auto bad = [&](std::pair<int, RT>& x) { return x.first == EXEC || x.first == STATE || (x.first == OUT && !pending.empty()); };
            c.erase(std::remove_if(c.begin(), c.end(), bad), c.end());
        }
        auto k = mc::pick(c);
        mc::step(); w.clear_log();
        switch (k.first) {
            case INJ: case INJ2: {
                In y{k.first == INJ ? 20 : 21, mc::mix(333, ninj++)};
                adevs::PinValue<V> pv(pin(y.pin), mkv<V>(y.v)); w.sim->injectInput(pv);
                pv = adevs::PinValue<V>(pin(3), mkv<V>(1));  // the simulator has its own copy
                pending.push_back(y); mc::trace("  injectInput %s", str(Ins{y}).c_str()); unchanged(); break;
            }
            case CLEAR: mc::trace("  clearInjectedInput"); w.sim->clearInjectedInput(); pending.clear(); unchanged(); break;
            case SET: mc::trace("  setNextTime %s", k.second.str().c_str()); w.sim->setNextTime(Clock<T>::to(k.second)); next = k.second; computed = false; unchanged(); break;
            case OUT: {
                mc::trace("  computeNextOutput with %s", str(pending).c_str());
                auto imm = w.ref_imm(next); w.impl_output();
                used = pending; pending.clear(); at = next; computed = true;
                check_out(at, used, imm); break;
            }
            case STATE: { mc::trace("  computeNextState"); RT ret = w.impl_state(); after_state(at, used, ret, false); break; }
            case EXEC: {
                mc::trace("  execNextEvent with %s", str(pending).c_str());
                w.phase = 3; RT ret = Clock<T>::from(w.sim->execNextEvent()); w.phase = 0;
                used = pending; pending.clear(); after_state(next, used, ret, true); break;
            }
        }
        mc::state(mc::mix(mc::mix(w.fingerprint(), next.inf ? -1 : next.r * 4 + next.k), pending.size() * 2 + computed));
    }
}
// the three ways to hand over the same components
template <class V, class T> void ctors(int dev, bool mealy = false) {
    int N = 1 + mc::choose(3);
    std::vector<std::vector<int>> memo[3];
    std::vector<std::string> log[3];
    auto ops = [&](int i) { return std::vector<int>{i, (i + 1) % N}; };
    int net = mc::choose(1 << (N * N > 4 ? 4 : N * N)), shape = mc::choose(N == 1 ? 3 : 2);
    if (mealy && (net & 1)) return;      // a Mealy model that is its own input
    std::vector<std::vector<int>> ta, out, op;
    for (int how = 0; how < 3; how++) {
        if (how == 2 && (N > 1 || net)) continue;
        World<V, T> w; w.dev = dev;
        std::vector<Spec> s(N);
        for (int i = 0; i < N; i++) { s[i].ta = {D(1), D(0), D(2), INF()}; s[i].out = {{i}, {}, {i, i}}; }
        if (mealy) { s[0].mealy = true; s[0].mpins = {0}; s[0].rule = 3; }
        w.make(s);
        if (how) { w.taM = ta; w.outM = out; w.opM = op; }
        auto c = std::make_shared<adevs::Coupled<V, T>>(); auto inner = std::make_shared<adevs::Coupled<V, T>>();
        for (int i = 0; i < N; i++) {
            if (how == 0) w.setup({ADD, i, 0}); else { w.rg.apply({ADD, i, 0}); (shape == 1 && i == 0 ? inner : c)->add_atomic(w.mod[i]); }
            for (int j = 0; j < N; j++) if (net >> ((i * N + j) % 4) & 1) { if (how == 0) w.setup({CPA, i, j}); else { w.rg.apply({CPA, i, j}); c->create_coupling(pin(i), w.mod[j]); } }
        }
        if (shape == 1) c->add_coupled_model(inner);
        w.start(how, c);
        w.listeners(1);
        for (int k = 0; k < 4; k++) {
            RT t = w.ref_next(); if (t.inf) break;
            w.cycle(t, {});
            std::vector<std::string> l; for (auto& x : w.tr) l.push_back(str(x)); std::sort(l.begin(), l.end());
            std::string z = t.str(); for (auto& x : l) z += "|" + x; log[how].push_back(z);
        }
        ta = w.taM; out = w.outM; op = w.opM;
        if (how && log[how] != log[0]) mc::fail("the simulator of a %s behaves differently from that of a graph", how == 1 ? "coupled model" : "single model");
    }
}
int main(int c, char** v) {
    return mc::main_(c, v, "C09", [](std::vector<mc::Scenario>& s, bool th) {
        using U = unsigned long; using SD = adevs::sd_time<int>;
        std::vector<RT> t = {D(2), D(1), INF()}, e = {D(0), D(1)};
        s.push_back({"1 Moore, 1 Mealy", [=] { run<U, double>({1, 1, t, 6 + th, 2, e}); }});
        s.push_back({"2 Moore", [=] { run<U, long>({2, 0, t, 6 + th, 1 + th, e}); }});
        s.push_back({"2 Moore, 2 Mealy", [=] { run<U, double>({2, 2, {D(2), D(3), INF()}, 6 + th, 1, e}); }});
        s.push_back({"1 Moore, all behaviours", [=] { run<U, double>({1, 0, {D(1), D(0), D(2), INF()}, 5 + th, 99, e}); }});
        s.push_back({"1 Moore, 2 Mealy, super dense", [=] { run<U, SD>({1, 2, {D(1), D(0), D(0, 1), INF()}, 5 + th, 2, {D(0), D(0, 1), D(1)}}); }});
        s.push_back({"1 Moore, 1 Mealy, structure changes, std::any", [=] { run<std::any, double>({1, 1, {D(2), D(1)}, 6, 2 + th, {D(1)}, false, {{}, {{DPA, 0, 1}}, {{REM, 1, 0}}}}); }});
        s.push_back({"1 Moore, 1 Mealy, long", [=] { run<U, double>({1, 1, {D(2)}, th ? 10 : 8, 0, {D(1)}}); }});
        s.push_back({"the three constructors", [th] { ctors<U, double>(3 + th); }});
        s.push_back({"the three constructors, one model is a Mealy model", [th] { ctors<U, double>(2 + th, true); }});
        s.push_back({"the three constructors, super dense", [th] { ctors<U, SD>(2 + th); }});
    });
}
