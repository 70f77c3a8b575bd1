// C19: the CVODE wrapper around a mock integrator with exact, piecewise constant
// dynamics on a dyadic grid. The mock knows the simulation time, the state that
// the last transition left and what the integrator last reported, and checks
// every callback against it.
#include <nvector/nvector_serial.h>
#include <sundials/sundials_context.h>
#include <cassert>
#include <limits>
#include <adevs/solvers/cvode.h>
#include "mc.h"

using PV = adevs::PinValue<int>;
using Xb = std::list<PV>;
static const double INF = adevs_inf<double>();
static SUNContext ctx;

struct Cfg {
    int n = 1;            // state variables
    int models = 1;       // CVODE models in the simulation
    bool all = false; int dev = 3, cycles = 4;
    int ctor = 0;         // 0 graph, 1 the model itself
    bool quiet = false;   // the event flag is written only when there is an event
    bool two = false;     // the state vector moves between two places
    double join = -1;     // a model joins at this time
    int inj = 2;
};
struct Rig;
struct Mock : adevs::CVODE<int> {
    Rig& r; int id;
    N_Vector v[2]; int cur = 0;
    // the mock's integrator: the state is that of local time it
    double it = 0;
    // by the definition
    double T = 0; std::vector<double> Y;       // local time and state after the last transition
    double rate = 1, TP = 0; bool ev = false, untilev = false;
    double base = 0;                           // simulation time at which the model started
    bool planned = false;                      // a step was asked for since the last transition
    int serial = 0;
    enum { IDLE, REINIT, UNTIL } ph = IDLE;
    bool outed = false; int transitions = 0;
    Mock(Rig& r, int id);
    ~Mock() { N_VDestroy(v[0]); N_VDestroy(v[1]); }
    double* y() { return N_VGetArrayPointer(v[cur]); }
    double now() const;
    void is(double t, std::vector<double> const& Y0, double T0, const char* who);
    void commit() { Y.assign(y(), y() + N()); T = now(); it = T; planned = false; transitions++; }
    int N() const;
    void jump();
    void moves();
    void input(Xb const& xb, const char* who);
    void cvode_delta_int() override;
    void cvode_delta_ext(double t, Xb const& xb) override;
    void cvode_delta_conf(Xb const& xb) override;
    void cvode_output_func(Xb& yb) override;
    N_Vector cvode_get_state() override { return v[cur]; }
    void cvode_integrate(double& tf, bool& event) override;
    void cvode_integrate_until(double tf, bool& event) override;
    void cvode_reinit(N_Vector y0, double t) override;
};
struct Sink : adevs::Atomic<int> {
    std::vector<int> got;
    double ta() override { return INF; }
    void delta_int() override { mc::fail("passive model took an internal transition"); }
    void delta_ext(double, Xb const& xb) override { for (auto& x : xb) got.push_back(x.value); }
    void delta_conf(Xb const&) override { mc::fail("passive model took a confluent transition"); }
    void output_func(Xb&) override { mc::fail("passive model asked for output"); }
};
struct Rig : adevs::EventListener<int, double> {
    Cfg const& cfg; int budget;
    std::vector<std::shared_ptr<Mock>> m;
    std::shared_ptr<Sink> sink = std::make_shared<Sink>();
    std::shared_ptr<adevs::Graph<int>> g;
    std::unique_ptr<adevs::Simulator<int>> sim;
    std::vector<adevs::pin_t> in;
    adevs::pin_t out;
    double now = 0;
    std::vector<int> sent, shown;
    std::vector<std::vector<int>> given;  // inputs of this cycle, per model
    enum { NONE, OUT, STATE } phase = NONE;
    Rig(Cfg const& c) : cfg(c), budget(c.dev) {}
    int dev(int n) { if (cfg.all) return mc::choose(n); if (budget <= 0) return 0; int k = mc::choose(n); if (k) budget--; return k; }
    void outputEvent(adevs::Atomic<int>&, PV& v, double t) override {
        if (t != now) mc::fail("output shown at %g in the cycle of %g", t, now);
        if (v.pin == out) shown.push_back(v.value);
    }
    void inputEvent(adevs::Atomic<int>&, PV&, double) override {}
    void stateChange(adevs::Atomic<int>& a, double t) override {
        for (auto& p : m) if (p.get() == &a) {
            mc::compared();
            if (t != now) mc::fail("state change shown at %g in the cycle of %g", t, now);
            if (p->planned) mc::fail("model %d at %g: the next step was computed before the state change was shown", p->id, t);
        }
    }
    void run();
    void cycle(bool exec);
};
// models are placed in the order of their numbers, so that executions are reproducible
alignas(64) static char arena[8][(sizeof(Mock) + 63) / 64 * 64];
static std::shared_ptr<Mock> make(Rig& r, int id) { return std::shared_ptr<Mock>(new (arena[id]) Mock(r, id), [](Mock* p) { p->~Mock(); }); }
int Mock::N() const { return r.cfg.n; }
double Mock::now() const { return r.now - base; }
Mock::Mock(Rig& r, int id) : r(r), id(id) {
    for (auto& x : v) x = N_VNew_Serial(r.cfg.n, ctx);
    for (int i = 0; i < r.cfg.n; i++) { N_VGetArrayPointer(v[0])[i] = 1 + i; N_VGetArrayPointer(v[1])[i] = -77; }
    Y.assign(y(), y() + r.cfg.n);
    base = r.now;
}
// the integrator's state must be the one that follows from Y0 at T0, at time t
void Mock::is(double t, std::vector<double> const& Y0, double T0, const char* who) {
    mc::compared();
    if (it != t) mc::fail("%s of model %d: the integrator is at %g, the time is %g", who, id, it, t);
    for (int i = 0; i < N(); i++) {
        double e = Y0[i] + (t > T0 ? (i + 1) * rate * (t - T0) : 0);
        if (y()[i] != e) mc::fail("%s of model %d at %g: variable %d is %g, should be %g", who, id, t, i, y()[i], e);
    }
}
void Mock::moves() {
    if (!r.cfg.two) return;
    int o = cur; cur = 1 - cur;
    for (int i = 0; i < N(); i++) { y()[i] = N_VGetArrayPointer(v[o])[i]; N_VGetArrayPointer(v[o])[i] = -55; }
}
// what a transition does: the state jumps, the dynamics change
void Mock::jump() {
    int k = r.dev(4);
    mc::trace("  model %d t=%g jump %d", id, now(), k);
    if (k & 1) y()[0] += 8;
    if (k & 2) rate = rate == 1 ? -2 : 1;
    serial++;
    moves();
    commit();
}
void Mock::cvode_integrate(double& tf, bool& event) {
    mc::step();
    if (planned) mc::fail("model %d: a second step is asked for at %g without a transition", id, now());
    is(T, Y, T, "the start of a step");
    static const double h[] = {1, 0.5, 0, 2, INF};
    int k = r.dev(10);
    planned = true; ph = IDLE;
    TP = T + h[k >> 1]; ev = k & 1;
    for (int i = 0; i < N(); i++) if (TP != T) y()[i] += TP == INF ? 0 : (i + 1) * rate * (TP - T);
    it = TP;
    moves();
    tf = TP;
    if (!r.cfg.quiet || ev) event = ev;
    mc::trace("  model %d t=%g step to %g event %d", id, T, TP, ev);
}
void Mock::cvode_reinit(N_Vector y0, double t) {
    mc::step(); mc::compared();
    if (r.phase != Rig::STATE) mc::fail("model %d: the integrator is restarted outside of a state change", id);
    if (ph != IDLE) mc::fail("model %d: the integrator is restarted twice", id);
    ph = REINIT;
    if (t != T) mc::fail("model %d at %g: restarted at time %g, the last transition was at %g", id, now(), t, T);
    if (N_VGetLength(y0) != N()) mc::fail("model %d: restarted with a vector of another size", id);
    double* p = N_VGetArrayPointer(y0);
    for (int i = 0; i < N(); i++) if (p[i] != Y[i]) mc::fail("model %d at %g: restarted with variable %d = %g, the last transition left %g", id, now(), i, p[i], Y[i]);
    std::vector<double> c(p, p + N());
    for (int i = 0; i < N(); i++) y()[i] = c[i];
    it = t;
}
void Mock::cvode_integrate_until(double tf, bool& event) {
    mc::step(); mc::compared();
    if (ph != REINIT) mc::fail("model %d at %g: the integrator is moved to %g without having been put back to the last transition", id, now(), tf);
    ph = UNTIL;
    if (tf != now()) mc::fail("model %d: the integrator is moved to %g, the time is %g", id, tf, now());
    is(T, Y, T, "the start of a step up to an input");
    for (int i = 0; i < N(); i++) y()[i] += (i + 1) * rate * (tf - T);
    it = tf;
    untilev = (TP == tf && ev) || r.dev(2);
    if (!r.cfg.quiet || untilev) event = untilev;
    mc::trace("  model %d moved to %g event %d", id, tf, untilev);
}
void Mock::input(Xb const& xb, const char* who) {
    mc::compared();
    std::vector<int> g; for (auto& x : xb) g.push_back(x.value);
    if (g != r.given[id]) mc::fail("%s of model %d at %g gets %zu inputs, %zu were sent", who, id, now(), g.size(), r.given[id].size());
}
void Mock::cvode_delta_int() {
    mc::step();
    if (r.phase != Rig::STATE || TP != now() || !planned) mc::fail("model %d: internal transition at %g, the step ends at %g", id, now(), TP);
    if (!ev) mc::fail("model %d: internal transition at %g without an event", id, now());
    if (!r.given[id].empty()) mc::fail("model %d: internal transition at %g in spite of input", id, now());
    if (!outed) mc::fail("model %d: internal transition at %g without output", id, now());
    is(TP, Y, T, "the internal transition");
    mc::count("internal"); jump();
}
void Mock::cvode_delta_conf(Xb const& xb) {
    mc::step();
    input(xb, "the confluent transition");
    if (r.phase != Rig::STATE || !planned) mc::fail("model %d: confluent transition out of order at %g", id, now());
    if (r.given[id].empty()) mc::fail("model %d: confluent transition at %g without input", id, now());
    if (ph == UNTIL) { if (!untilev) mc::fail("model %d: confluent transition at %g without an event", id, now()); }
    else if (ph != IDLE || !ev || TP != now()) mc::fail("model %d: confluent transition at %g, the step ends at %g, event %d", id, now(), TP, ev);
    if (ph == IDLE && !outed) mc::fail("model %d: confluent transition at %g without output", id, now());
    is(now(), Y, T, "the confluent transition");
    mc::count("confluent"); jump();
}
void Mock::cvode_delta_ext(double t, Xb const& xb) {
    mc::step();
    input(xb, "the external transition");
    if (r.phase != Rig::STATE || !planned) mc::fail("model %d: external transition out of order at %g", id, now());
    if (t != now()) mc::fail("model %d: external transition is told the time %g at %g", id, t, now());
    if (r.given[id].empty()) mc::fail("model %d: external transition at %g without input", id, now());
    if (ph == UNTIL) { if (untilev) mc::fail("model %d: external transition at %g in spite of an event", id, now()); }
    else if (ph != IDLE || ev || TP != now()) mc::fail("model %d: external transition at %g without moving the integrator there, event %d", id, now(), ev);
    is(now(), Y, T, "the external transition");
    mc::count("external"); jump();
}
void Mock::cvode_output_func(Xb& yb) {
    mc::step();
    if (r.phase != Rig::OUT || TP != now() || !planned) mc::fail("model %d: output at %g, the step ends at %g", id, now(), TP);
    if (!ev) mc::fail("model %d: output at %g without an event", id, now());
    is(TP, Y, T, "output");
    outed = true;
    int v = 1000 * id + serial;
    r.sent.push_back(v);
    yb.push_back(PV(r.out, v));
}
void Rig::cycle(bool exec) {
    // computes the output and the state of the cycle at `now`
    std::vector<int> before; std::vector<bool> due, input;
    for (auto& p : m) {
        p->outed = false; p->ph = Mock::IDLE;
        before.push_back(p->transitions);
        due.push_back(p->base + p->TP == now); input.push_back(!given[p->id].empty());
    }
    sent.clear(); shown.clear(); sink->got.clear();
    phase = OUT;
    if (!exec || cfg.all || !dev(2)) sim->computeNextOutput();
    else { sim->computeNextOutput(); sent.clear(); shown.clear(); sim->setNextTime(now); for (auto& p : m) p->outed = false;
           for (auto& p : m) for (int v : given[p->id]) { PV x(in[p->id], v); sim->injectInput(x); }
           sim->computeNextOutput(); }
    mc::compared();
    for (size_t i = 0; i < m.size(); i++)
        if (m[i]->outed != (due[i] && m[i]->ev)) mc::fail("model %zu at %g: %s", i, now, m[i]->outed ? "output without an event" : "no output at an event");
    phase = STATE;
    std::vector<char> wasev; for (auto& p : m) wasev.push_back(p->ev);
    // a step that ends without event or input is just continued from where it ended
    for (size_t i = 0; i < m.size(); i++) if (due[i] && !m[i]->ev && !input[i]) { m[i]->is(now - m[i]->base, m[i]->Y, m[i]->T, "the end of a step"); m[i]->commit(); m[i]->transitions--; }
    sim->computeNextState();
    phase = NONE;
    mc::compared();
    std::sort(sent.begin(), sent.end()); std::sort(shown.begin(), shown.end()); std::sort(sink->got.begin(), sink->got.end());
    if (sent != shown) mc::fail("outputs shown at %g: %zu, produced: %zu", now, shown.size(), sent.size());
    if (cfg.ctor == 0 && sent != sink->got) mc::fail("outputs delivered at %g: %zu, produced: %zu", now, sink->got.size(), sent.size());
    for (size_t i = 0; i < m.size(); i++) {
        Mock& k = *m[i];
        bool want = input[i] || (due[i] && wasev[i]);
        if (k.transitions != before[i] + (want ? 1 : 0)) mc::fail("model %zu at %g: %d transitions, expected %d", i, now, k.transitions - before[i], (int)want);
        if ((due[i] || input[i]) && !k.planned) mc::fail("model %zu at %g: no next step was asked for", i, now);
        if (k.it != k.TP) mc::fail("model %zu at %g: the integrator was left at %g, the step ends at %g", i, now, k.it, k.TP);
    }
}
void Rig::run() {
    for (int i = 0; i < cfg.models; i++) m.push_back(make(*this, i));
    in.resize(cfg.models + 1); given.resize(cfg.models + 1);
    auto self = std::shared_ptr<adevs::EventListener<int, double>>(this, [](void*) {});
    if (cfg.ctor == 1) {
        sim.reset(new adevs::Simulator<int>(m[0]));
    } else {
        g = std::make_shared<adevs::Graph<int>>();
        g->add_atomic(sink); g->connect(out, sink);
        for (int i = 0; i < cfg.models; i++) { g->add_atomic(m[i]); g->connect(in[i], m[i]); }
        sim.reset(new adevs::Simulator<int>(g));
    }
    sim->addEventListener(self);
    bool joined = cfg.join < 0;
    int injected = 0;
    for (int c = 0; c < cfg.cycles; c++) {
        double tn = INF;
        for (auto& p : m) tn = std::min(tn, p->base + p->TP);
        mc::compared();
        if (sim->nextEventTime() != tn) mc::fail("the next event is at %g, the earliest step ends at %g", sim->nextEventTime(), tn);
        for (auto& x : given) x.clear();
        // 0: nothing; an input at the time of the next event; before it by 1/4, 1/2, at the same time as the last cycle; two inputs
        int k = injected < cfg.inj ? dev(6) : 0;
        double last = now;
        if (k == 0 && tn == INF) break;
        double t = tn;
        if (k == 2) t = last + 0.25;
        if (k == 3) t = last + 0.5;
        if (k == 4) t = last;
        if (t > tn || t == INF) { if (tn == INF) t = last + 0.25; else t = tn; }
        if (!joined && t >= cfg.join) {
            // the model joins at the end of the current time of the simulation
            joined = true;
            auto p = make(*this, (int)m.size());
            m.push_back(p);
            g->add_atomic(p); g->connect(in[p->id], p);
            if (tn != INF && last < cfg.join) {  // takes effect at the end of the next cycle
                for (auto& q : m) q->outed = false;
                sim->setNextTime(std::min(cfg.join, tn));
            } else sim->setNextTime(last);
            now = sim->nextEventTime(); p->base = now; p->TP = INF;  // not yet planned
            p->planned = false;
            double tp = p->TP; (void)tp;
            cycle(false);
            if (!p->planned) mc::fail("the model that joined was not asked for its first step");
            continue;
        }
        if (k == 4 || k == 2 || k == 3) sim->setNextTime(t);
        else if (t != tn) sim->setNextTime(t);
        now = t;
        if (k) {
            injected++;
            int who = m.size() > 1 ? dev((int)m.size()) : 0;
            for (int j = 0; j < (k == 5 ? 2 : 1); j++) { int v = 100 * c + j; given[who].push_back(v); PV x(in[who], v); sim->injectInput(x); }
        }
        mc::trace("cycle at %g input kind %d", now, k);
        cycle(true);
        uint64_t h = 7;
        for (auto& p : m) { h = mc::mix(h, mc::hash_str(std::to_string(p->T) + "," + std::to_string(p->TP) + "," + std::to_string(p->ev) + "," + std::to_string(p->Y[0]) + "," + std::to_string(p->rate))); }
        mc::state(mc::mix(h, mc::hash_str(std::to_string(now))));
    }
}
int main(int argc, char** argv) {
    if (SUNContext_Create(
#if SUNDIALS_VERSION_MAJOR < 7
        nullptr
#else
        0
#endif
        , &ctx)) return 3;
    return mc::main_(argc, argv, "C19", [](std::vector<mc::Scenario>& s, bool th) {
        auto add = [&](std::string n, Cfg c) { s.push_back({n, [c] { auto k = std::make_shared<Rig>(c); k->run(); k->sim.reset(); }}); };
        Cfg c;
        for (int quiet = 0; quiet < 2; quiet++) for (int two = 0; two < 2; two++) for (int ct = 0; ct < 2; ct++) {
            c = Cfg(); c.quiet = quiet; c.two = two; c.ctor = ct; c.n = 1 + two;
            c.all = true; c.cycles = 2; c.inj = ct ? 0 : 2;
            std::string t = std::string(quiet ? "/flag only set" : "") + (two ? "/moving state" : "") + (ct ? "/single" : "/graph");
            add("all" + t, c);
            c.all = false; c.cycles = th ? 6 : 5; c.dev = th ? 5 : 4; c.inj = ct ? 0 : 3;
            add("deviations" + t, c);
        }
        c = Cfg(); c.models = 2; c.cycles = 5; c.dev = th ? 4 : 3; add("two models", c);
        c.models = 3; add("three models", c);
        c = Cfg(); c.join = 1.5; c.cycles = 5; c.dev = th ? 4 : 3; add("joins later", c);
        c.join = 0; add("joins at once", c);
    });
}
