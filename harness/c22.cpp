// C22: lifetime of models, values, systems, solvers and locators. Built with
// AddressSanitizer, so that any use after release or double release ends the
// execution; every allocation made during an execution must be released by its end.
#include <nvector/nvector_serial.h>
#include <sundials/sundials_context.h>
#include <sanitizer/asan_interface.h>
#include <cassert>
#include <cmath>
#include <limits>
#include <memory>
#include <adevs/adevs.h>
#include <adevs/solvers/corrected_euler.h>
#include <adevs/solvers/cvode.h>
#include <adevs/solvers/event_locators.h>
#include <adevs/solvers/hybrid.h>
#include <adevs/solvers/rk_45.h>
#include <adevs/solvers/trap.h>
#include "mc.h"

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static bool watching = false;
static const int CAP = 1 << 16;
static const volatile void* live[CAP]; static long nlive = 0;  // open addressing
static int slot(const volatile void* p) { int i = (int)(((uintptr_t)p >> 4) * 2654435761u & (CAP - 1)); return i; }
static void on_malloc(const volatile void* p, size_t) {
    if (!watching || nlive > CAP / 2) return;
    int i = slot(p); while (live[i] && live[i] != (void*)1) i = (i + 1) & (CAP - 1);
    live[i] = p; nlive++;
}
static void on_free(const volatile void* p) {
    if (!nlive || !p) return;
    for (int i = slot(p); live[i]; i = (i + 1) & (CAP - 1)) if (live[i] == p) { live[i] = (void*)1; nlive--; return; }
}
// what the explorer allocates does not count
struct Off { bool w = watching; Off() { watching = false; } ~Off() { watching = w; } };
static int choose(int n) { Off o; return mc::choose(n); }
static void trace(const char* f, int a = 0, int b = 0) { if (mc::tracing()) { Off o; mc::trace(f, a, b); } }
#define FAIL(...) do { watching = false; mc::fail(__VA_ARGS__); } while (0)
static void watch(std::function<void()> const& body) {
    memset((void*)live, 0, sizeof live); nlive = 0;
    watching = true;
    try { body(); } catch (...) { watching = false; throw; }
    watching = false;
    mc::compared();
    if (nlive) mc::fail("%ld allocations are never released", nlive);
}
static const double INF = adevs_inf<double>();

// counted objects: kinds of their own, so that each is released exactly once
static int alive_[64], born_[64];
struct Counted {
    int id; unsigned magic = 0xfeedbeef;
    Counted(int i) : id(i) { alive_[id]++; born_[id]++; }
    Counted(Counted const&) = delete;
    ~Counted() { if (magic != 0xfeedbeef) abort(); magic = 0; alive_[id]--; }
};
enum { TOKEN = 40, COUPLED = 20, LISTENER = 50, SYS = 51, SOLVER = 52, LOCATOR = 53 };
using Val = std::shared_ptr<Counted>;
using PV = adevs::PinValue<Val>;
using Xb = std::list<PV>;
using A = adevs::Atomic<Val>;
using G = adevs::Graph<Val>;
using C = adevs::Coupled<Val>;

// Models live at fixed places, in an order that is the same in every execution (the
// simulator keeps sets of pointers), and a place is poisoned while nobody lives there.
alignas(64) static char places[16][1024];
static int place = 0;
template <class T> struct Placed {
    static void* operator new(size_t n) {
        static_assert(sizeof(T) <= sizeof places[0]);
        ASAN_UNPOISON_MEMORY_REGION(places[place], n); return places[place];
    }
    static void operator delete(void* p) { ASAN_POISON_MEMORY_REGION(p, sizeof places[0]); }
};
struct Cfg {
    int models = 3, dev = 3, calls = 5;
    int top = 0;          // 0 graph, 1 coupled, 2 single model
    bool negative = false, loop = false;
    int fan = 1;
    bool mirror = false;
};
struct Rig;
struct Beh {
    Rig& r; Counted c; int n = 0;
    Beh(Rig& r, int id) : r(r), c(id) {}
    void seen(Xb const& xb) { for (auto& x : xb) if (!x.value || x.value->magic != 0xfeedbeef) abort(); }
    double next();
    void act();
    void out(Xb& yb);
};
struct Moore : A, Beh, Placed<Moore> {
    Moore(Rig& r, int id) : Beh(r, id) {}
    double ta() override { return next(); }
    void delta_int() override { act(); }
    void delta_ext(double, Xb const& xb) override { seen(xb); act(); }
    void delta_conf(Xb const& xb) override { seen(xb); act(); }
    void output_func(Xb& yb) override { out(yb); }
};
struct Mealy : adevs::MealyAtomic<Val>, Beh, Placed<Mealy> {
    Mealy(Rig& r, int id) : Beh(r, id) {}
    double ta() override { return next(); }
    void delta_int() override { act(); }
    void delta_ext(double, Xb const& xb) override { seen(xb); act(); }
    void delta_conf(Xb const& xb) override { seen(xb); act(); }
    void output_func(Xb& yb) override { out(yb); }
    void external_output_func(double, Xb const& xb, Xb& yb) override { seen(xb); out(yb); }
    void confluent_output_func(Xb const& xb, Xb& yb) override { seen(xb); out(yb); }
};
struct Sub : C, Counted, Placed<Sub> { Sub(int id) : Counted(id) {} };
struct Listener : adevs::EventListener<Val>, Counted {
    Listener() : Counted(LISTENER) {}
    void outputEvent(A&, PV& v, double) override { if (v.value->magic != 0xfeedbeef) abort(); }
    void inputEvent(A&, PV& v, double) override { if (v.value->magic != 0xfeedbeef) abort(); }
    void stateChange(A& a, double) override { if (dynamic_cast<Beh&>(a).c.magic != 0xfeedbeef) abort(); }
};
static adevs::pin_t& pin(int i) { static std::vector<adevs::pin_t> p(16); return p[i]; }

struct Rig {
    Cfg const& cfg; int budget;
    std::weak_ptr<G> wg;
    std::shared_ptr<G> g;                        // the user's handles
    std::vector<std::shared_ptr<A>> m;
    std::vector<A*> raw;
    std::vector<std::shared_ptr<Sub>> sub;
    std::vector<std::weak_ptr<A>> wm;
    std::vector<std::weak_ptr<Sub>> ws;
    std::shared_ptr<Listener> lis;
    std::unique_ptr<adevs::Simulator<Val>> sim;
    int now = 0; bool computed = false; bool pending = false;
    std::vector<std::vector<int>> ina;           // ina[c][i]: model i is in coupled c
    std::vector<std::vector<int>> inc;           // inc[c][d]: coupled d is in coupled c
    Rig(Cfg const& c) : cfg(c), budget(c.dev) { for (auto& a : alive_) a = 0; for (auto& b : born_) b = 0; }
    int dev(int n) { if (budget <= 0) return 0; int k = choose(n); if (k) budget--; return k; }
    std::shared_ptr<A> model(int i) { return m[i] ? m[i] : wm[i].lock(); }
    std::shared_ptr<Sub> coupled(int c) { return sub[c] ? sub[c] : ws[c].lock(); }
    int requests() const { return cfg.top == 0 ? 2 * (int)m.size() + 2 : cfg.top == 1 ? 2 * 2 * (int)m.size() + 4 : 1; }
    // structural request k, on whatever of the objects still exists
    void request(int k) {
        if (k == 0) return;
        trace("  request %d", k);
        k--;
        if (cfg.top == 0) {
            auto gr = g ? g : wg.lock();
            if (!gr) return;
            int n = m.size();
            if (k < n) { auto a = model(k); if (a) { gr->add_atomic(a); gr->connect(pin(k), a); gr->connect(pin(8), a); pending = true; } }
            else if (k < 2 * n) { auto a = model(k - n); if (a) { gr->remove_atomic(a); pending = true; } }
            else { gr->remove_pin(pin(8)); pending = true; }
        } else if (cfg.top == 1) {
            int n = m.size();
            if (k < 4 * n) {
                int i = k / 4, c = k / 2 % 2; bool add = k % 2 == 0;
                auto a = model(i); auto p = coupled(c);
                if (!a || !p) return;
                if (add) { p->add_atomic(a); p->create_coupling(pin(i), a); p->create_coupling(pin(8), a); ina[c][i] = 1; }
                else { p->remove_atomic(a); ina[c][i] = 0; }
            } else {
                auto p = coupled(0), q = coupled(1);
                if (!p || !q) return;
                k -= 4 * n;
                if (k == 0) { p->remove_coupled_model(q); inc[0][1] = 0; }
                else if (k == 1) { p->add_coupled_model(q); inc[0][1] = 1; }
                else if (k == 2) { q->create_coupling(pin(9), pin(8)); }
            }
            pending = true;
        }
    }
    void check(const char* when) {
        Off off;
        mc::compared();
        auto gr = wg.lock();
        int nlisten = lis || (sim && born_[LISTENER]);
        if (alive_[LISTENER] != (nlisten ? 1 : 0)) mc::fail("%s: %d listeners are alive, should be %d", when, alive_[LISTENER], nlisten);
        for (size_t c = 0; c < sub.size(); c++) {
            bool want = sub[c] != nullptr;
            if (c == 1 && inc[0][1] && alive_[COUPLED] > 0) want = true;
            if (alive_[COUPLED + c] != want) mc::fail("%s: coupled model %zu is %s", when, c, want ? "gone while it is referred to" : "still alive although nothing refers to it");
        }
        for (size_t i = 0; i < m.size(); i++) {
            bool want = m[i] != nullptr, maybe = false;
            if (gr) { for (auto& a : gr->get_atomics()) if (a.get() == raw[i]) want = true; if (pending) maybe = true; }
            for (size_t c = 0; c < sub.size(); c++) if (alive_[COUPLED + c] && ina[c][i]) want = true;
            // what a coupled model has flattened stays in the simulation when it goes
            if (cfg.top == 1 && sim) { if (pending) maybe = true; else if (ina[0][i] || (inc[0][1] && ina[1][i])) want = true; }
            if (cfg.top == 2 && sim) want = true;
            if (want && !alive_[i]) mc::fail("%s: model %zu is gone while it is referred to", when, i);
            if (!want && !maybe && alive_[i]) mc::fail("%s: model %zu is still alive although nothing refers to it", when, i);
            if (alive_[i] > 1 || alive_[i] < 0) mc::fail("%s: model %zu was released %d times", when, i, 2 - alive_[i]);
        }
        uint64_t h = 5; for (int i = 0; i < 64; i++) if (i != TOKEN) h = mc::mix(h, alive_[i]);
        mc::state(mc::mix(h, gr ? gr->get_atomics().size() + 16 * (sim != nullptr) : 99));
    }
    void run();
    void ops();
};
double Beh::next() {
    static const double t[] = {1, 2, INF, 0};
    int k = r.dev(r.cfg.negative ? 5 : 4);
    return k == 4 ? -1 : t[k];
}
void Beh::act() { n++; r.request(r.dev(r.requests())); }
void Beh::out(Xb& yb) {
    if (r.cfg.loop) { yb.push_back(PV(pin(8), std::make_shared<Counted>(TOKEN))); return; }
    int k = r.dev(4);
    // to the next model, to all, twice
    if (k == 0) yb.push_back(PV(pin((c.id + 1) % (int)r.m.size()), std::make_shared<Counted>(TOKEN)));
    if (k == 1) yb.push_back(PV(pin(8), std::make_shared<Counted>(TOKEN)));
    if (k == 2) for (int i = 0; i < 2; i++) yb.push_back(PV(pin((c.id + 2) % (int)r.m.size()), std::make_shared<Counted>(TOKEN)));
}
void Rig::ops() {
    // the user's steps
    for (int step = 0; step < cfg.calls; step++) {
        int nm = m.size();
        int k = dev(6 + nm + (int)sub.size() + 3 + 1);
        trace("step %d", k);
        try {
            if (k == 0 && sim) {
                if (sim->nextEventTime() == INF && computed == false) { trace("  passive"); }
                if (computed) { sim->computeNextState(); computed = false; } else sim->execNextEvent();
                pending = false;
            } else if (k == 1 && sim) { sim->computeNextOutput(); computed = true; }
            else if (k == 2 && sim) { for (int j = 0; j < 2; j++) { PV x(pin(j ? 8 : 0), std::make_shared<Counted>(TOKEN)); sim->injectInput(x); } if (sim->nextEventTime() == INF) sim->setNextTime(50 + step); }
            else if (k == 3 && sim) sim->clearInjectedInput();
            else if (k == 4) { int q = 1 + choose(requests() - 1 > 0 ? requests() - 1 : 1); if (requests() > 1) request(q); }
            else if (k == 5 && sim && sim->nextEventTime() != INF) { sim->setNextTime(sim->nextEventTime()); sim->computeNextOutput(); sim->computeNextState(); pending = computed = false; }
            else if (k >= 6 && k < 6 + nm) m[k - 6].reset();
            else if (k >= 6 + nm && k < 6 + nm + (int)sub.size()) sub[k - 6 - nm].reset();
            else if (k == 6 + nm + (int)sub.size()) g.reset();
            else if (k == 7 + nm + (int)sub.size()) { sim.reset(); computed = false; if (!wg.lock()) pending = false; }
            else if (k == 8 + nm + (int)sub.size()) lis.reset();
            else if (k == 9 + nm + (int)sub.size() && nm) { for (auto& x : m) x.reset(); for (auto& x : sub) x.reset(); g.reset(); }
        } catch (adevs::exception& e) {
            trace("  exception");
            { Off o; mc::count("exceptions"); }
            // nobody goes on after this
            break;
        }
        mc::step();
        check("after a call");
    }
}
void Rig::run() {
    watch([&] {
        g = std::make_shared<G>(); wg = g;
        for (int i = 0; i < cfg.models; i++) {
            place = cfg.mirror ? 9 - i : i;
            if (i == 2 || cfg.loop) m.push_back(std::shared_ptr<A>(new Mealy(*this, i))); else m.push_back(std::shared_ptr<A>(new Moore(*this, i)));
            raw.push_back(m[i].get()); wm.push_back(m[i]);
        }
        try {
            if (cfg.top == 0) {
                for (int i = 0; i + 1 < cfg.models || i == 0; i++) { g->add_atomic(m[i]); g->connect(pin(i), m[i]); g->connect(pin(8), m[i]); }
                sim.reset(new adevs::Simulator<Val>(g));
            } else if (cfg.top == 1) {
                g.reset();
                for (int c = 0; c < 2; c++) { place = cfg.mirror ? 12 - c : 10 + c; sub.push_back(std::shared_ptr<Sub>(new Sub(COUPLED + c))); ws.push_back(sub[c]); }
                ina.assign(2, std::vector<int>(cfg.models, 0)); inc.assign(2, std::vector<int>(2, 0));
                sub[0]->add_coupled_model(sub[1]); inc[0][1] = 1;
                sub[0]->add_atomic(m[0]); ina[0][0] = 1; sub[0]->create_coupling(pin(0), m[0]);
                sub[1]->add_atomic(m[1]); ina[1][1] = 1; sub[1]->create_coupling(pin(1), m[1]); sub[1]->create_coupling(pin(8), m[1]);
                sim.reset(new adevs::Simulator<Val>(sub[0]));
            } else {
                g.reset();
                sim.reset(new adevs::Simulator<Val>(m[0]));
            }
        } catch (adevs::exception&) { Off o; mc::count("rejected by the constructor"); }
        if (sim) { lis = std::make_shared<Listener>(); sim->addEventListener(lis); if (cfg.fan > 1) sim->addEventListener(lis); }
        bool ok = sim != nullptr;
        if (ok) { check("at the start"); ops(); }
        // everything else goes, in any order
        std::vector<int> left{0, 1};
        if (sim) left.push_back(2);
        for (size_t i = 0; i < m.size(); i++) left.push_back(3 + i);
        for (size_t i = 0; i < sub.size(); i++) left.push_back(10 + i);
        int order = choose(cfg.top == 2 ? 2 : 6);
        // six orders: as made, reversed, the simulator first or last, models first or last
        auto drop = [&](int k) {
            if (k == 0) g.reset(); else if (k == 1) lis.reset(); else if (k == 2) sim.reset(); else if (k < 10) m[k - 3].reset(); else sub[k - 10].reset();
        };
        auto key = [&](int k) {
            switch (order) {
                case 0: return k;
                case 1: return -k;
                case 2: return k == 2 ? -1 : k;
                case 3: return k == 2 ? 99 : -k;
                case 4: return k >= 3 && k < 10 ? -k : k;
                default: return k >= 10 ? -k : k >= 3 ? 50 + k : k;
            }
        };
        std::sort(left.begin(), left.end(), [&](int a, int b) { return key(a) < key(b); });
        pending = true;  // what was pending when an exception ended the simulation stays so
        for (int k : left) drop(k);
        left.clear(); left.shrink_to_fit();
        mc::compared();
        for (int i = 0; i < 64; i++) if (alive_[i]) FAIL("%d objects of kind %d are still alive after everything was dropped", alive_[i], i);
        // the rig's own storage
        for (auto* v : {&m}) { v->clear(); v->shrink_to_fit(); }
        std::vector<A*>().swap(raw); std::vector<std::shared_ptr<Sub>>().swap(sub);
        std::vector<std::weak_ptr<A>>().swap(wm); std::vector<std::weak_ptr<Sub>>().swap(ws); wg.reset();
        std::vector<std::vector<int>>().swap(ina); std::vector<std::vector<int>>().swap(inc);
    });
}

// ---- systems, solvers and locators ------------------------------------------------
using Vx = adevs::PinValue<int>;
struct Sys : adevs::ode_system<int>, Counted {
    bool jac;
    Sys(int n, int m, bool jac = false) : adevs::ode_system<int>(n, m), Counted(SYS), jac(jac) {}
    void use() const { if (magic != 0xfeedbeef) abort(); }
    void init(double* q) override { for (int i = 0; i < numVars(); i++) q[i] = i; }
    void der_func(double const*, double* dq) override { use(); for (int i = 0; i < numVars(); i++) dq[i] = 1; }
    void state_event_func(double const* q, double* z) override { use(); for (int i = 0; i < numEvents(); i++) z[i] = q[0] - 1.5 - i; }
    double time_event_func(double const*) override { use(); return INF; }
    bool get_jacobian(double const*, double* J) override { use(); if (jac && J) for (int i = 0; i < numVars() * numVars(); i++) J[i] = 0; return jac; }
    void internal_event(double* q, bool const*) override { use(); q[0] = 0; }
    void external_event(double* q, double, std::list<Vx> const&) override { use(); q[0] += 0.125; }
    void confluent_event(double* q, bool const*, std::list<Vx> const&) override { use(); q[0] = 0; }
    void output_func(double const*, bool const*, std::list<Vx>& yb) override { use(); yb.push_back(Vx(pin(0), 1)); }
};
// what is adopted must be able to use the system until it is released itself
template <class B> struct Own : B, Counted {
    Sys* s;
    template <class... X> Own(Sys* s, int id, X... x) : B(x...), Counted(id), s(s) {}
    ~Own() { if (alive_[SYS] != 1 || s->magic != 0xfeedbeef) abort(); }
};
static adevs::ode_solver<int>* make_solver(int k, Sys* s) {
    switch (k) {
        case 0: return new Own<adevs::corrected_euler<int>>(s, SOLVER, s, 1e-4, 1.0);
        case 1: return new Own<adevs::rk_45<int>>(s, SOLVER, s, 1e-4, 1.0);
        default: return new Own<adevs::trap<int>>(s, SOLVER, s, 1e-4, 1.0);
    }
}
static adevs::event_locator<int>* make_locator(int k, Sys* s) {
    switch (k) {
        case 0: return new Own<adevs::bisection_event_locator<int>>(s, LOCATOR, s, 1e-4);
        case 1: return new Own<adevs::linear_event_locator<int>>(s, LOCATOR, s, 1e-4);
        case 2: return new Own<adevs::discontinuous_event_locator<int>>(s, LOCATOR, s, 1e-4);
        case 3: return new Own<adevs::fast_event_locator<int>>(s, LOCATOR, s, 1e-4);
        case 4: return new Own<adevs::null_event_locator<int>>(s, LOCATOR);
        default: return new Own<adevs::fast_event_locator<int>>(s, LOCATOR, s, 1e-4, true);
    }
}
static void clear_counts() { for (auto& a : alive_) a = 0; for (auto& b : born_) b = 0; }
static void tools(int solver, int locator, int n, int mm, bool jac) {
    clear_counts();
    watch([&] {
        auto s = std::make_unique<Sys>(n, mm, jac);
        adevs::ode_solver<int>* so = make_solver(solver, s.get());
        adevs::event_locator<int>* lo = make_locator(locator, s.get());
        std::vector<double> q(n), q0(n);
        std::unique_ptr<bool[]> ev(new bool[mm + 1]());
        s->init(q.data());
        int calls = choose(mc::S().thorough ? 6 : 5);
        for (int i = 0; i < calls; i++) {
            mc::step(); mc::state(mc::mix(mc::mix(solver, locator), mc::S().pos * 64 + n * 2 + jac));
            q0 = q;
            switch (choose(3)) {
                case 0: so->integrate(q.data(), 2.0); break;
                case 1: so->advance(q.data(), 2.5); break;
                case 2: { double h = so->integrate(q.data(), 1.0); lo->find_events(ev.get(), q0.data(), q.data(), so, h); break; }
            }
        }
        bool first = choose(2);
        if (first) { delete so; delete lo; } else { delete lo; delete so; }
        mc::compared();
        if (alive_[SOLVER] || alive_[LOCATOR] || alive_[SYS] != 1) FAIL("after releasing solver and locator: %d solvers, %d locators, %d systems", alive_[SOLVER], alive_[LOCATOR], alive_[SYS]);
        s->use();
    });
}
static void hybrid(int solver, int locator, int n, int mm, bool jac) {
    clear_counts();
    watch([&] {
        auto* s = new Sys(n, mm, jac);
        std::shared_ptr<adevs::Hybrid<int>> h;
        bool ready = solver > 2;      // the ready-made combinations make their own solver and locator
        if (solver == 3) h = std::make_shared<adevs::ExplicitHybrid<int>>(s, 1e-4, 1.0);
        else if (solver == 4) h = std::make_shared<adevs::ImplicitHybrid<int>>(s, 1e-4, 1.0);
        else h = std::make_shared<adevs::Hybrid<int>>(s, make_solver(solver, s), make_locator(locator, s));
        auto g = std::make_shared<adevs::Graph<int>>();
        g->add_atomic(h); g->connect(pin(0), h);
        std::unique_ptr<adevs::Simulator<int>> sim(new adevs::Simulator<int>(g));
        int calls = choose(mc::S().thorough ? 6 : 5);
        for (int i = 0; i < calls; i++) {
            mc::step();
            switch (choose(6)) {
                case 0: sim->execNextEvent(); break;
                case 1: { Vx x(pin(0), 3); sim->injectInput(x); sim->execNextEvent(); break; }
                case 2: { double t = sim->nextEventTime(); sim->computeNextOutput(); Vx x(pin(0), 3); sim->setNextTime(t * 0.5 + 0.5 * std::min(t, (double)i)); sim->injectInput(x); sim->computeNextOutput(); sim->computeNextState(); break; }
                case 3: h.reset(); break;
                case 4: { auto k = g->get_atomics(); for (auto& a : k) g->remove_atomic(a); sim->execNextEvent(); break; }
                case 5: g.reset(); g = std::make_shared<adevs::Graph<int>>(); break;
            }
            mc::compared();
            if (alive_[SYS] > 1 || !ready && (alive_[SOLVER] != alive_[SYS] || alive_[LOCATOR] != alive_[SYS])) FAIL("%d systems, %d solvers, %d locators", alive_[SYS], alive_[SOLVER], alive_[LOCATOR]);
            if (h && alive_[SYS] != 1) FAIL("the system of a hybrid model in use was released");
            if (sim->nextEventTime() == INF) break;
        }
        if (choose(2)) { sim.reset(); h.reset(); g.reset(); } else { g.reset(); h.reset(); sim.reset(); }
        mc::compared();
        if (alive_[SOLVER] || alive_[LOCATOR] || alive_[SYS]) FAIL("after everything was dropped: %d systems, %d solvers, %d locators", alive_[SYS], alive_[SOLVER], alive_[LOCATOR]);
    });
}
static SUNContext ctx;
struct Cv : adevs::CVODE<int> {
    N_Vector y; double t = 0;
    Cv() { y = N_VNew_Serial(2, ctx); N_VConst(1.0, y); }
    ~Cv() { N_VDestroy(y); }
    void cvode_delta_int() override {}
    void cvode_delta_ext(double, std::list<Vx> const&) override {}
    void cvode_delta_conf(std::list<Vx> const&) override {}
    void cvode_output_func(std::list<Vx>&) override {}
    N_Vector cvode_get_state() override { return y; }
    void cvode_integrate(double& tf, bool& ev) override { t += 1; tf = t; ev = choose(2); }
    void cvode_integrate_until(double tf, bool& ev) override { t = tf; ev = choose(2); }
    void cvode_reinit(N_Vector y0, double t0) override { N_VScale(1.0, y0, y); t = t0; }
};
static void cvode() {
    clear_counts();
    watch([&] {
        auto m = std::make_shared<Cv>();
        auto g = std::make_shared<adevs::Graph<int>>();
        g->add_atomic(m); g->connect(pin(0), m);
        std::unique_ptr<adevs::Simulator<int>> sim;
        if (choose(2)) sim.reset(new adevs::Simulator<int>(g));
        for (int i = 0; i < 3 && sim; i++) {
            int k = choose(4);
            if (k == 3) break;
            if (k == 1) { Vx x(pin(0), 3); sim->injectInput(x); }
            if (k == 2) { Vx x(pin(0), 3); sim->setNextTime(sim->nextEventTime() - 0.5); sim->injectInput(x); }
            sim->execNextEvent();
        }
        if (choose(2)) { m.reset(); sim.reset(); g.reset(); } else { sim.reset(); g.reset(); m.reset(); }
    });
}
// many models: the storage of the schedule grows
static void storage(int limit) {
    clear_counts();
    watch([&] {
        auto g = std::make_shared<adevs::Graph<int>>();
        int n = 1 + choose(limit);
        struct M : adevs::Atomic<int>, Counted {
            int k; M(int k) : Counted(0), k(k) {}
            double ta() override { return k % 3 ? 1 : INF; }
            void delta_int() override { k++; }
            void delta_ext(double, std::list<Vx> const&) override { k += 2; }
            void delta_conf(std::list<Vx> const&) override {}
            void output_func(std::list<Vx>& yb) override { yb.push_back(Vx(pin(k % 4), k)); }
        };
        for (int i = 0; i < n; i++) { auto m = std::make_shared<M>(i); g->add_atomic(m); g->connect(pin(i % 4), m); }
        adevs::Simulator<int> sim(g);
        int cycles = choose(3);
        for (int i = 0; i < cycles && sim.nextEventTime() != INF; i++) { mc::step(); sim.execNextEvent(); }
        if (choose(2)) { auto all = g->get_atomics(); for (auto& a : all) g->remove_atomic(a); if (sim.nextEventTime() != INF) { sim.execNextEvent(); all.clear(); if (alive_[0]) FAIL("%d removed models are still alive", alive_[0]); } }
        if (choose(2)) g.reset();
        mc::compared();
    });
    if (alive_[0]) mc::fail("%d models are still alive", alive_[0]);
}
int main(int argc, char** argv) {
    mc::S().trail.reserve(4096);
    pin(0);
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    if (SUNContext_Create(
#if SUNDIALS_VERSION_MAJOR < 7
        nullptr
#else
        0
#endif
        , &ctx)) return 3;
    return mc::main_(argc, argv, "C22", [](std::vector<mc::Scenario>& s, bool th) {
        auto add = [&](std::string n, Cfg c) { s.push_back({n, [c] { auto r = std::make_unique<Rig>(c); r->run(); }}); };
        Cfg c;
        c.dev = th ? 4 : 3; c.calls = th ? 4 : 3; add("graph", c);
        c.models = 2; c.calls = 4; add("graph/two models", c);
        c.calls = 3; c.models = 4; c.dev = th ? 3 : 2; add("graph/four models", c);
        c = Cfg(); c.top = 1; c.dev = th ? 4 : 3; c.calls = th ? 3 : 2; add("coupled", c);
        c.mirror = true; c.dev = th ? 3 : 2; add("coupled/mirrored", c); c.mirror = false;
        c.calls = th ? 6 : 4; c.dev = th ? 3 : 2; add("coupled/longer", c);
        c = Cfg(); c.top = 2; c.models = 1; c.dev = th ? 5 : 4; add("single", c);
        c = Cfg(); c.negative = true; c.dev = th ? 3 : 2; c.calls = 5; add("negative time advance/graph", c);
        c.top = 1; add("negative time advance/coupled", c);
        c.top = 2; c.models = 1; add("negative time advance/single", c);
        c = Cfg(); c.loop = true; c.dev = th ? 3 : 2; add("mealy loop", c);
        c = Cfg(); c.fan = 2; c.dev = th ? 3 : 2; c.calls = th ? 6 : 5; add("two listeners", c);
        for (int so = 0; so < 3; so++) for (int l = 0; l < 6; l++) for (int j = 0; j < (so == 2 ? 2 : 1); j++) {
            std::string t = "/" + std::to_string(so) + "/" + std::to_string(l) + (j ? "/jacobian" : "");
            for (int n = 1; n <= 3; n += 2) {
                int mm = l == 4 ? 0 : n;
                s.push_back({"tools" + t + "/" + std::to_string(n), [=] { tools(so, l, n, mm, j); }});
                s.push_back({"hybrid" + t + "/" + std::to_string(n), [=] { hybrid(so, l, n, mm, j); }});
            }
        }
        for (int n = 1; n <= 2; n++) {
            s.push_back({"ExplicitHybrid/" + std::to_string(n), [=] { hybrid(3, 2, n, n, false); }});
            s.push_back({"ImplicitHybrid/" + std::to_string(n), [=] { hybrid(4, 2, n, n, false); }});
            s.push_back({"ImplicitHybrid/jacobian/" + std::to_string(n), [=] { hybrid(4, 2, n, n, true); }});
        }
        s.push_back({"cvode", cvode});
        s.push_back({"storage", [th] { storage(th ? 420 : 220); }});
    });
}
