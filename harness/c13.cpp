// C13: a negative time advance anywhere.
#include "simlab.h"
#include <climits>
using namespace lab;
using U = unsigned long;

template <class T> void run(int how, int depth, int dev, std::vector<RT> neg) {
    World<U, T> w; w.dev = dev;
    int N = how == 2 ? 1 : 4;   // model 3 is added while running
    std::vector<Spec> s(N);
    std::vector<RT> menu = {D(1), D(0), INF(), D(2)}; for (RT n : neg) menu.push_back(n);
    for (int i = 0; i < N; i++) {
        s[i].ta = menu; s[i].out = {{i}, {}, {20}};
        if (how != 2) s[i].ops = {{}, {{ADD, 3, 0}}, {{REM, (i + 1) % 3, 0}}, {{ADD, 3, 0}, {REM, 3, 0}}, {{REM, i, 0}, {ADD, i, 0}}, {{ADD, 3, 0}, {CPA, 20, 3}}};
        if (i == 2) { s[i].mealy = true; s[i].out.clear(); s[i].rule = 0; s[i].mpins = {i}; }
    }
    w.make(s, N == 4 ? std::vector<int>{2, 0, 3, 1} : std::vector<int>{});
    auto c = std::make_shared<adevs::Coupled<U, T>>();
    for (int i = 0; i < std::min(N, 3); i++) {
        if (how == 0) w.setup({ADD, i, 0}); else { c->add_atomic(w.mod[i]); w.rg.apply({ADD, i, 0}); }
        if (how == 2) continue;
        if (how == 0) { w.setup({CPA, i, (i + 1) % 3}); w.setup({CPA, 20, i}); }
        else { c->create_coupling(pin(i), w.mod[(i + 1) % 3]); w.rg.apply({CPA, i, (i + 1) % 3}); c->create_coupling(pin(20), w.mod[i]); w.rg.apply({CPA, 20, i}); }
    }
    if (how == 1) for (auto& x : w.spec) x.ops.clear();
    auto negative = [&] {
        std::set<int> b;
        for (int i = 0; i < N; i++) for (int k : w.taM[i]) if (k >= 0 && w.spec[i].ta[k].neg()) b.insert(i);
        return b;
    };
    auto judge = [&](const char* where, std::function<void()> f) {   // true: it ended with the exception
        bool threw = false; void* who = nullptr;
        try { f(); } catch (adevs::exception& e) { threw = true; who = e.who(); mc::trace("  exception %s in %s", e.what(), where); }
        mc::compared();
        auto b = negative();
        mc::count(b.empty() ? "legal" : where);
        if (b.empty() && threw) mc::fail("%s: an exception is thrown although no time advance was negative", where);
        if (!b.empty() && !threw) mc::fail("%s: the negative time advance of m%d is accepted", where, *b.begin());
        if (threw) { bool ok = false; for (int i : b) if (who == (void*)w.raw[i]) ok = true; if (!ok) mc::fail("%s: who() is not the model with the negative time advance", where); }
        return threw;
    };
    if (judge("construction", [&] { w.start(how, c); })) return;
    std::vector<std::vector<int>> inj = {{}, {20}};
    for (int d = 0; d < depth; d++) {
        bool more = false;
        size_t before = w.taM.size(); (void)before;
        if (judge("a cycle", [&] { more = how == 2 ? w.env_cycle({}, {}) : w.env_cycle({D(1)}, inj); })) return;
        if (!more || w.dangling()) return;
    }
}
static double mc_num(double x) { return x; }
static double mc_num(float x) { return x; }
static double mc_num(long double x) { return x; }
static double mc_num(int x) { return x; }
static double mc_num(long x) { return x; }
static double mc_num(adevs::double_fcmp x) { return (double)x; }
template <class X> double mc_num(adevs::sd_time<X> const& x) { return x.real(); }
// Negative time advances that vanish against the current time, and legal ones at the edge.
template <class T> void extreme(std::vector<T> pos, std::vector<T> neg, int depth, bool late) {
    struct M : adevs::Atomic<U, T> {
        std::vector<T>*p, *n; T cur; bool quiet = true, bad = false; int id;
        void next() { if (quiet) return; int k = mc::choose(p->size() + n->size()); bad = k >= (int)p->size(); cur = bad ? (*n)[k - p->size()] : (*p)[k]; }
        void delta_int() override { next(); }
        void delta_ext(T, std::list<adevs::PinValue<U>> const&) override { next(); }
        void delta_conf(std::list<adevs::PinValue<U>> const&) override { next(); }
        void output_func(std::list<adevs::PinValue<U>>&) override {}
        T ta() override { return cur; }
    };
    auto g = std::make_shared<adevs::Graph<U, T>>(); adevs::pin_t pp; std::shared_ptr<M> m[3];
    for (int i = 0; i < 3; i++) { m[i] = std::make_shared<M>(); m[i]->p = &pos; m[i]->n = &neg; m[i]->id = i; m[i]->cur = adevs_inf<T>(); if (i < 2) g->add_atomic(m[i]); }
    int sub = mc::choose(2); m[sub]->quiet = false; m[2]->quiet = !late; m[1 - sub]->cur = pos[mc::choose(pos.size())];
    if (!late) m[sub]->next(); else m[sub]->cur = pos[0];
    g->connect(pp, m[0]); g->connect(pp, m[1]);
    auto bad = [&]() -> M* { for (auto& x : m) if (x->bad) return x.get(); return nullptr; };
    auto judge = [&](std::function<void()> f) {
        bool threw = false; void* who = nullptr;
        try { f(); } catch (adevs::exception& e) { threw = true; who = e.who(); }
        mc::compared(); mc::step(); M* b = bad();
        if (b && !threw) mc::fail("a negative time advance is accepted: %.17g", (double)mc_num(b->cur));
        if (!b && threw) mc::fail("an exception is thrown although no time advance was negative");
        if (threw && who != (void*)static_cast<adevs::Atomic<U, T>*>(b)) mc::fail("who() is not the model with the negative time advance");
        return threw;
    };
    std::unique_ptr<adevs::Simulator<U, T>> sim;
    if (judge([&] { sim.reset(new adevs::Simulator<U, T>(g)); })) return;
    T now = pos[0];
    for (int d = 0; d < depth; d++) {
        bool inj = mc::flip();
        if (!inj && sim->nextEventTime() == adevs_inf<T>()) return;
        if (inj) { adevs::PinValue<U> x(pp, 1); sim->injectInput(x); if (sim->nextEventTime() == adevs_inf<T>()) sim->setNextTime(now); }
        now = sim->nextEventTime() + adevs_epsilon<T>();
        if (late && d == depth - 1) { m[2]->next(); g->add_atomic(m[2]); }
        if (judge([&] { sim->execNextEvent(); })) { mc::count("tiny"); return; }
        mc::state(mc::mix(mc::hash_str(std::to_string((double)mc_num(sim->nextEventTime()))), d + 8 * sub));
    }
}
int main(int c, char** v) {
    return mc::main_(c, v, "C13", [](std::vector<mc::Scenario>& s, bool th) {
        std::vector<RT> n1 = {D(-1), D(-7)}, nk = {D(-1), D(0, -1), D(-1, 5), D(0, -9)};
        auto all = [&](std::string t, auto tag, std::vector<RT> n, int dev) {
            using T = decltype(tag);
            s.push_back({"graph, " + t, [=] { run<T>(0, 3, dev, n); }});
            s.push_back({"coupled, " + t, [=] { run<T>(1, 3, dev, n); }});
            s.push_back({"single, " + t, [=] { run<T>(2, 4, 99, n); }});
        };
        auto ex = [&](std::string t, auto tag, auto pos, auto neg) {
            using T = decltype(tag); std::vector<T> P, N; for (auto& x : pos) P.push_back(T(x)); for (auto& x : neg) N.push_back(T(x));
            s.push_back({"extremes, " + t, [=] { extreme<T>(P, N, 3, false); }}); s.push_back({"extremes added while running, " + t, [=] { extreme<T>(P, N, 2, true); }});
        };
        std::vector<double> dp = {1, 1e6, 1e15, 0, -0.0, 1e300, 1e-300}, dn = {-1, -1e-9, -1e-300, -4.9e-324, -1e15, -std::numeric_limits<double>::infinity()};
        ex("double", double(), dp, dn); ex("double_fcmp", adevs::double_fcmp(), dp, std::vector<double>{-1, -1e-9, -1e-200, -1e15});
        std::vector<long double> lp(dp.begin(), dp.end()), ln(dn.begin(), dn.end()); lp.push_back(1e4000L); ln.push_back(-1e-4900L); ex("long double", (long double)0, lp, ln);
        ex("float", float(), std::vector<float>{1, 1e6f, 1e30f, 0, -0.0f, 1e-30f}, std::vector<float>{-1, -1e-9f, -1e-38f, -1e-45f, -1e30f});
        ex("int", int(), std::vector<int>{1, 0, 500000000}, std::vector<int>{-1, -500000000, INT_MIN}); ex("long", long(), std::vector<long>{1, 0, 1L << 40, 1L << 60}, std::vector<long>{-1, -(1L << 40), LONG_MIN});
        { using T = adevs::sd_time<double>; ex("sd_time<double>", T(), std::vector<T>{{1, 0}, {1e6, 3}, {1e15, 0}, {0, 0}, {0, 100}, {1, -5}}, std::vector<T>{{-1, 0}, {-1e-9, 4}, {-1e-300, 100}, {0, -1}, {-1e6, 100}, {0, INT_MIN / 2}}); }
        { using T = adevs::sd_time<long>; ex("sd_time<long>", T(), std::vector<T>{{1, 0}, {1L << 60, 0}, {0, 0}, {0, 100}, {1, -5}}, std::vector<T>{{-1, 0}, {-1, 100}, {0, -1}, {-(1L << 60), 100}}); }
        { using T = adevs::sd_time<int>; ex("sd_time<int>", T(), std::vector<T>{{1, 0}, {1 << 28, 0}, {0, 0}, {0, 100}, {1, -5}}, std::vector<T>{{-1, 0}, {-1, 100}, {0, -1}, {-(1 << 28), 100}}); }
        all("double", double(), n1, 3 + th); all("sd_time<double>", adevs::sd_time<double>(), nk, 2 + th);
        all("float", float(), n1, 2 + th); all("long double", (long double)0, n1, 2 + th); all("int", int(), n1, 2 + th); all("long", long(), n1, 2 + th);
        all("double_fcmp", adevs::double_fcmp(), n1, 2 + th); all("sd_time<int>", adevs::sd_time<int>(), nk, 2 + th); all("sd_time<long>", adevs::sd_time<long>(), nk, 2 + th);
    });
}
