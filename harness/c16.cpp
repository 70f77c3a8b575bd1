// C16: Hybrid on exactly solvable dynamics (piecewise constant rates on a dyadic
// grid), with every splitting into steps, search result and input time.
#include "simlab.h"
#include <adevs/solvers/corrected_euler.h>
#include <adevs/solvers/event_locators.h>
#include <adevs/solvers/rk_45.h>
#include <adevs/solvers/trap.h>
#include <cmath>
#include <limits>
#ifndef TT
#define TT double
#endif
using PV = adevs::PinValue<int>;
using Xb = std::list<PV>;
static const double INF = std::numeric_limits<double>::infinity();

struct Cfg {
    std::vector<double> c;           // z_k = x - c_k
    bool adapt = false;              // real solver and locator: compare within tolerances
    int solver = 0, locator = 0;
    std::vector<double> steps{8};    // sizes of integration steps, chosen at every step
    double late = 0;                 // the locator reports up to this late
    bool shortstop = false;          // the locator may stop short of the event
    int cycles = 4, dev = 3, inputs = 2;
    bool all = false;
    double h_max = 8;
};
struct Rig;
struct Sys : adevs::ode_system<int> {
    Rig& r;
    // the sizes are given to the constructor, or set later
    Sys(Rig& r, int m) : adevs::ode_system<int>(2, m), r(r) {}
    Sys(Rig& r, int m, bool) : r(r) { set_num_state_variables(2); set_num_event_functions(m); }
    void init(double* q) override;
    void der_func(double const* q, double* dq) override;
    void state_event_func(double const* q, double* z) override;
    double time_event_func(double const* q) override;
    void postStep(double* q) override;
    void internal_event(double* q, bool const* ev) override;
    void external_event(double* q, double e, Xb const& xb) override;
    void confluent_event(double* q, bool const* ev, Xb const& xb) override;
    void output_func(double const* q, bool const* ev, Xb& yb) override;
};
struct Solver : adevs::ode_solver<int> {
    Rig& r;
    Solver(Rig& r, Sys* s) : adevs::ode_solver<int>(s), r(r) {}
    double integrate(double* q, double h) override;
    void advance(double* q, double h) override { double dq[2]; sys->der_func(q, dq); for (int i = 0; i < 2; i++) q[i] += h * dq[i]; }
};
struct Locator : adevs::event_locator<int> {
    Rig& r;
    Locator(Rig& r, Sys* s) : adevs::event_locator<int>(s), r(r) {}
    bool find_events(bool* ev, double const* q0, double* q, adevs::ode_solver<int>* s, double& h) override;
};
struct Rig : adevs::EventListener<int, TT> {
    Cfg const& cfg; int M, budget;
    // what the model is in, by the definition
    double L = 0, x = 0, rate = 1, timer = INF;      // state at the last discrete event, at time L
    bool inited = false;
    double now = 0;                                  // time of the current cycle
    double post = -1;                                // time of the last postStep or transition
    double tol;
    adevs::pin_t in, out;
    std::vector<int> missed, emitted, shown;         // outputs: kept for the next cycle, expected in this one, seen in this one
    int serial = 0;
    enum { NONE, OUT, STATE } phase = NONE;
    int transitions = 0; bool outdone = false;
    bool due = false, maybe = false, input = false;                 // in this cycle: an event is due, input arrives
    int xcount = 0;
    Rig(Cfg const& c) : cfg(c), M(c.c.size()), budget(c.dev), tol(c.adapt ? 2e-3 : 0) {}
    int dev(int n) { if (cfg.all) return mc::choose(n); if (budget <= 0) return 0; int k = mc::choose(n); if (k) budget--; return k; }
    double at(double t) const { return x + rate * (t - L); }
    bool near(double a, double b) const { return a == b || fabs(a - b) <= tol; }
    int sgn(double v) const { return v < 0 ? -1 : v > 0; }
    double crossing(int k) const { double z = x - cfg.c[k]; if (z == 0 || rate == 0) return INF; double t = -z / rate; return t > 0 ? L + t : INF; }
    double first() const { double t = INF; for (int k = 0; k < M; k++) t = std::min(t, crossing(k)); return t; }
    void flags(double t, bool const* ev, bool timed, const char* who) {
        mc::compared();
        for (int k = 0; k < M; k++) {
            double tc = crossing(k);
            if (tol && fabs(tc - t) <= tol) continue;
            if (ev[k] != (tc <= t)) mc::fail("%s at %g: the flag of event function %d is %d, it crosses at %g", who, t, k, ev[k], tc);
        }
        if (ev[M] != timed && !(tol && fabs(timer - t) <= tol)) mc::fail("%s at %g: the flag of the time event is %d, the time event is at %g", who, t, ev[M], timer);
    }
    void where(double const* q, double t, const char* who) {
        mc::compared();
        if (!near(q[1], t)) mc::fail("%s sees the state at time %.17g instead of %.17g", who, q[1], t);
        double s = fabs(rate) + 1;
        if (fabs(q[0] - at(t)) > tol * s) mc::fail("%s at %g sees x=%.17g instead of %.17g", who, t, q[0], at(t));
    }
    void posted(const char* who) { if (!(tol == 0 ? post == now : near(post, now))) mc::fail("%s at %g: the last postStep was for %g", who, now, post); }
    // the new discrete state
    void change(double* q, const char* who, bool ext) {
        transitions++; mc::step();
        x = q[0]; 
        static const double rates[] = {1, -1, 2, 0}; static const double timers[] = {INF, 0, 0.5, 1.25, 3};
        bool keep = ext && dev(2) == 0;     // input without effect is the default
        double left = timer - now;
        if (!keep) {
            if (cfg.adapt && !ext) { x = 0; rate = dev(2) ? -2 : 1; }
            else {
                int k = dev(4); rate = ext ? rates[(k + 1) % 4] : rates[k];
                if (!ext && k == 0) rate = -rate0;
                int j = dev(3); if (j == 1) x = 0; if (j == 2) x = 4;
            }
            rate0 = rate == 0 ? 1 : rate;
            timer = now + timers[dev(5)];
        } else if (left < 0) timer = INF;
        L = now; q[0] = x; q[1] = now; post = now;
        mc::trace("%s at %g: x=%g rate=%g timer=%g", who, now, x, rate, timer);
    }
    double rate0 = 1;
    void outputEvent(adevs::Atomic<int, TT>& m, PV& v, TT t) override { if (v.pin == out) shown.push_back(v.value); if (t != now) mc::fail("output reported at %g instead of %g", t, now); }
    void inputEvent(adevs::Atomic<int, TT>&, PV&, TT) override {}
    void stateChange(adevs::Atomic<int, TT>&, TT) override {}
};
void Sys::init(double* q) { q[0] = r.x; q[1] = 0; r.post = 0; r.inited = true; }
void Sys::der_func(double const*, double* dq) { dq[0] = r.rate; dq[1] = 1; }
void Sys::state_event_func(double const* q, double* z) { for (int k = 0; k < r.M; k++) z[k] = q[0] - r.cfg.c[k]; }
double Sys::time_event_func(double const* q) { if (r.timer == INF) return INF; double d = r.timer - q[1]; return r.cfg.adapt && d < 1e-12 ? 0 : d; }
void Sys::postStep(double* q) { r.where(q, r.now, "postStep"); r.post = r.now; }
void Sys::output_func(double const* q, bool const* ev, Xb& yb) {
    if (r.outdone) mc::fail("output twice at %g", r.now);
    r.outdone = true;
    r.where(q, r.now, "output_func"); r.posted("output_func");
    bool late = r.phase == Rig::STATE;   // found while handling input
    r.flags(r.now, ev, !late && r.now == r.timer, "output_func");
    if (!late && !r.due && !r.maybe) mc::fail("output at %g although no event is due", r.now);
    if (r.dev(3) == 2) return;           // an event without output
    int v = ++r.serial; yb.push_back(PV(r.out, v));
    (late ? r.missed : r.emitted).push_back(v);
}
void Sys::internal_event(double* q, bool const* ev) {
    if (r.phase != Rig::STATE || !r.due || r.input || r.transitions) mc::fail("internal_event at %g: %s", r.now, !r.due ? "no event is due" : r.input ? "with input" : "twice");
    if (!r.outdone) mc::fail("internal_event at %g without output before", r.now);
    r.where(q, r.now, "internal_event"); r.posted("internal_event"); r.flags(r.now, ev, r.now == r.timer, "internal_event");
    r.change(q, "internal", false);
}
void Sys::external_event(double* q, double e, Xb const& xb) {
    if (r.phase != Rig::STATE || !r.input || r.transitions) mc::fail("external_event at %g: %s", r.now, !r.input ? "without input" : "twice");
    if (r.due) mc::fail("external_event at %g although an event is due", r.now);
    if ((int)xb.size() != r.xcount) mc::fail("external_event with %zu of %d inputs", xb.size(), r.xcount);
    if (!r.near(e, r.now - r.L)) mc::fail("external_event at %g with elapsed time %.17g instead of %.17g", r.now, e, r.now - r.L);
    double tc = r.first();
    if (tc < r.now - r.tol) mc::fail("external_event at %g although an event occured at %g", r.now, tc);
    if (tc == r.now && !r.tol && r.L < r.now) mc::fail("external_event at %g although an event function is zero", r.now);
    r.where(q, r.now, "external_event"); r.posted("external_event");
    r.change(q, "external", true);
}
void Sys::confluent_event(double* q, bool const* ev, Xb const& xb) {
    if (r.phase != Rig::STATE || !r.input || r.transitions) mc::fail("confluent_event at %g: %s", r.now, !r.input ? "without input" : "twice");
    if ((int)xb.size() != r.xcount) mc::fail("confluent_event with %zu of %d inputs", xb.size(), r.xcount);
    bool late = !r.due;
    double tc = r.first();
    if (late && !(tc <= r.now + r.tol)) mc::fail("confluent_event at %g although no event is due", r.now);
    if (!r.outdone) mc::fail("confluent_event at %g without output before", r.now);
    r.where(q, r.now, "confluent_event"); r.posted("confluent_event"); r.flags(r.now, ev, !late && r.now == r.timer, "confluent_event");
    if (late) mc::count("events found while handling input");
    r.change(q, "confluent", false);
}
double Solver::integrate(double* q, double h) {
    auto& v = r.cfg.steps;
    double s = std::min(h, v[r.dev(v.size())]);
    advance(q, s); return s;
}
bool Locator::find_events(bool* ev, double const* q0, double* q, adevs::ode_solver<int>* s, double& h) {
    double t = INF, dq[2]; sys->der_func(q0, dq);
    for (int i = 0; i < 2; i++) if (!r.near(q[i], q0[i] + h * dq[i])) mc::fail("the event locator is given a step of %.17g that ends at x=%.17g, time %.17g, but starts at x=%.17g, time %.17g", h, q[0], q[1], q0[0], q0[1]);
    for (int k = 0; k < r.M; k++) {
        ev[k] = false;
        double z = q0[0] - r.cfg.c[k]; if (z == 0 || dq[0] == 0) continue;
        double tc = -z / dq[0]; if (tc > 0 && tc <= h) t = std::min(t, tc);
    }
    if (t == INF) return false;
    if (r.cfg.shortstop && t < h && r.dev(2)) {
        h = t / 2; q[0] = q0[0]; q[1] = q0[1]; s->advance(q, h); mc::count("searches that stop short"); return false;
    }
    double te = std::min(h, t + r.cfg.late);
    h = te; q[0] = q0[0]; q[1] = q0[1]; s->advance(q, h);
    for (int k = 0; k < r.M; k++) { double z0 = q0[0] - r.cfg.c[k], z1 = q[0] - r.cfg.c[k]; ev[k] = z0 != 0 && r.sgn(z0) != r.sgn(z1); }
    return true;
}
static uint64_t hd(uint64_t h, double d) { uint64_t b; memcpy(&b, &d, 8); return mc::mix(h, b); }
static void ready_made(std::shared_ptr<adevs::Hybrid<int, double>>& h, Sys* s, Cfg const& cfg) {
    if (cfg.solver == 2) h = std::make_shared<adevs::ExplicitHybrid<int>>(s, 1e-6, cfg.h_max);
    else h = std::make_shared<adevs::ImplicitHybrid<int>>(s, 1e-6, cfg.h_max);
}
template <class H> static void ready_made(H&, Sys*, Cfg const&) {}
static void run(Cfg const& cfg) {
    auto rig = std::make_shared<Rig>(cfg); Rig& r = *rig;
    if (cfg.c.size() && cfg.adapt) {} 
    static const double timers[] = {INF, 1, 2.5, 0};
    r.timer = timers[r.dev(4)];
    Sys* s = cfg.late > 0 ? new Sys(r, r.M, true) : new Sys(r, r.M);
    if (s->numVars() != 2 || s->numEvents() != r.M) mc::fail("a system of %d variables and %d event functions instead of 2 and %d", s->numVars(), s->numEvents(), r.M);
    adevs::ode_solver<int>* so; adevs::event_locator<int>* lo;
    if (!cfg.adapt) { so = new Solver(r, s); lo = new Locator(r, s); }
    else if (cfg.solver > 1) { so = nullptr; lo = nullptr; }
    else {
        if (cfg.solver == 0) so = new adevs::corrected_euler<int>(s, 1e-6, cfg.h_max); else so = new adevs::rk_45<int>(s, 1e-6, cfg.h_max);
        switch (cfg.locator) {
            case 0: lo = new adevs::linear_event_locator<int>(s, 1e-4); break;
            case 1: lo = new adevs::bisection_event_locator<int>(s, 1e-4); break;
            case 2: lo = new adevs::discontinuous_event_locator<int>(s, 1e-4); break;
            case 3: lo = new adevs::fast_event_locator<int>(s, 1e-4); break;
            default: lo = new adevs::fast_event_locator<int>(s, 1e-4, true);
        }
    }
    std::shared_ptr<adevs::Hybrid<int, TT>> h;
    if (cfg.solver > 1) ready_made(h, s, cfg);
    if (!h) h = std::make_shared<adevs::Hybrid<int, TT>>(s, so, lo);
    auto g = std::make_shared<adevs::Graph<int, TT>>();
    g->add_atomic(h); g->connect(r.in, h);
    adevs::Simulator<int, TT> sim(g);
    sim.addEventListener(rig);
    static const double gaps[] = {INF, 0.5, 0, 0.25, 0.75, 1, 1.125, 1.5, 2.5};
    double plan = INF, lastin = 0; int left = cfg.inputs;
    auto next_input = [&] { if (left <= 0) { plan = INF; return; } double gp = gaps[r.dev(9)]; plan = lastin + gp; if (gp == INF) left = 0; else left--; };
    next_input();
    int discrete = 0;
    for (int cyc = 0; cyc < 40 && discrete < cfg.cycles; cyc++) {
        double tn = sim.nextEventTime();
        double predicted = std::min(r.first(), r.timer);
        // real locators are inexact: an input meets the event's own instant or stays clear of it
        if (cfg.adapt && plan != INF && fabs(plan - predicted) < 0.05) plan = tn < predicted - 0.05 ? plan : tn;
        if (tn == INF && plan == INF) { if (predicted < INF) mc::fail("no event is scheduled, but one is due at %g", predicted); break; }
        bool pend = !r.missed.empty();
        double t = std::min(tn, plan);
        if (pend && tn != r.now) mc::fail("output missed at %g is scheduled for %g", r.now, tn);
        r.now = t; r.phase = Rig::NONE; r.transitions = 0; r.outdone = false; r.shown.clear(); r.emitted = r.missed; r.missed.clear(); r.input = plan == t; r.xcount = 0;
        // an event is due now: exactly, or (late locators) when the simulator comes here by itself after it
        r.due = r.maybe = false;
        if (t == r.timer) r.due = true;
        else if (cfg.adapt) { if (tn == t && fabs(t - r.timer) < 1e-9) r.due = true; else r.maybe = tn == t && r.near(t, r.first()); }
        else if (cfg.late == 0) r.due = t == r.first();
        else if (tn == t && t >= r.first()) r.due = true;
        if (!pend || r.due) {
            double limit = std::min(r.first() + cfg.late, r.timer);
            if (tn > limit + r.tol) mc::fail("the next step ends at %.17g, beyond the event at %.17g", tn, limit);
        }
        if (r.due && tn != t) { if (cfg.late == 0) mc::fail("the event at %g is not scheduled", t); r.due = false; }
        uint64_t hs = hd(hd(hd(hd(hd(1, t - r.L), r.x), r.rate), r.timer - t), tn - t); mc::state(mc::mix(mc::mix(hs, r.missed.size() + 2 * pend), r.input + 2 * r.due));
        if (r.input) {
            r.xcount = 1 + r.dev(2);
            for (int i = 0; i < r.xcount; i++) { PV v(r.in, i); sim.injectInput(v); }
            if (t < tn) sim.setNextTime(t);
        }
        bool was = h->eventHappened();
        mc::trace("cycle at %g (next %g, event %g%s%s)", t, tn, predicted, r.input ? ", input" : "", pend ? ", missed output" : "");
        r.phase = Rig::OUT;
        sim.computeNextOutput();
        if (r.shown != r.emitted) mc::fail("%zu outputs at %g instead of %zu", r.shown.size(), t, r.emitted.size());
        if (r.due && !r.outdone) mc::fail("no output for the event at %g", t);
        if (r.transitions) mc::fail("a transition while output is computed");
        if (r.maybe) r.due = r.outdone;   // a real locator may stop just short of the event
        r.phase = Rig::STATE;
        sim.computeNextState();
        mc::compared();
        bool want = r.due || r.input;
        if ((r.transitions == 1) != want) mc::fail("%d transitions at %g (event due %d, input %d)", r.transitions, t, r.due, r.input);
        if (want && !h->eventHappened()) mc::fail("eventHappened is false after the event at %g", t);
        if (!want && !pend && h->eventHappened()) mc::fail("eventHappened is true after an integration step");
        (void)was;
        if (!pend || want) r.where(h->getState(), t, "getState");
        if (h->getState(0) != h->getState()[0] || h->getSystem() != s) mc::fail("getters");
        if (want) discrete++; else if (!pend) mc::count("mere integration steps");
        if (r.input) { lastin = t; next_input(); }
        if (cyc == 39 && cfg.adapt) mc::count("executions cut at 40 cycles");
    }
    mc::state(mc::mix(discrete, r.serial));
}
static void build(std::vector<mc::Scenario>& v, bool th) {
    auto add = [&](std::string n, Cfg c) { v.push_back({n, [c] { run(c); }}); };
    std::vector<std::vector<double>> cs = {{}, {1}, {1, -1}, {1, 1, 2}};
    for (auto& c : cs) {
        std::string m = std::to_string(c.size()) + " event functions";
        Cfg k; k.c = c; k.steps = {8, 0.25, 1, 0.5}; k.cycles = th ? 6 : 5; k.dev = th ? 4 : 3; k.inputs = 3;
        add("exact, " + m, k);
        if (c.empty()) continue;
        Cfg l = k; l.late = 0.25; add("late locator, " + m, l);
        Cfg s = k; s.shortstop = true; add("locator that stops short, " + m, s);
        Cfg b = k; b.shortstop = true; b.late = 0.375; add("late locator that stops short, " + m, b);
    }
    { Cfg k; k.c = {1}; k.steps = {8, 0.5}; k.all = true; k.cycles = th ? 2 : 1; k.inputs = 1; add("all behaviours, exact", k); k.late = 0.25; add("all behaviours, late", k); }
    if (sizeof(TT) == sizeof(double)) for (int so = 0; so < 4; so++) for (int lo = 0; lo < (so < 2 ? 5 : 1); lo++) for (double hm : {0.3, 2.0}) {
        Cfg k; k.adapt = true; k.c = {1, -1}; k.solver = so; k.locator = lo; k.h_max = hm; k.cycles = th ? 5 : 4; k.dev = th ? 3 : 2; k.inputs = 2;
        add("solver " + std::to_string(so) + ", locator " + std::to_string(lo) + ", step " + std::to_string(hm), k);
    }
}
int main(int argc, char** argv) { return mc::main_(argc, argv, "C16", build); }
