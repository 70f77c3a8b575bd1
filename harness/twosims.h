// Simulations for C15: fixed programs of API calls, one call per step. What each
// simulation does and sees goes to its log. Everything a simulation uses is its own.
#pragma once
#include <nvector/nvector_serial.h>
#include <sundials/sundials_context.h>
#include <cassert>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <vector>
#include <adevs/adevs.h>
#include <adevs/solvers/corrected_euler.h>
#include <adevs/solvers/cvode.h>
#include <adevs/solvers/event_locators.h>
#include <adevs/solvers/hybrid.h>
#include <adevs/solvers/rk_45.h>
#include <adevs/solvers/trap.h>

double adevs::double_fcmp::epsilon = 1e-9;  // the user defines it
struct Sim {
    std::vector<uint64_t> log;
    uint64_t cycle = 0;                  // events of a cycle come in no particular order
    std::function<void()> at_callback;   // may run something else
    static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 33); }
    static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
    void saw(uint64_t who, uint64_t what, uint64_t a, uint64_t b = 0) {
        cycle += mix(mix(mix(mix(1, who), what), a), b);
        if (at_callback) at_callback();
    }
    void flush(uint64_t v) { log.push_back(mix(cycle, v)); cycle = 0; }
    virtual int steps() const = 0;
    virtual void step(int k) = 0;
    virtual ~Sim() {}
    void call(int k) { step(k); }
};

// ---- discrete event simulations -------------------------------------------------
template <class Time> struct Tm;
template <> struct Tm<double> { static uint64_t of(double t) { return Sim::bits(t); } static double make(int k) { return 0.25 * k; } };
template <> struct Tm<int> { static uint64_t of(int t) { return (uint64_t)t; } static int make(int k) { return k; } };
template <> struct Tm<adevs::sd_time<double>> {
    static uint64_t of(adevs::sd_time<double> const& t) { return Sim::mix(Sim::bits(t.real()), (uint64_t)(int64_t)t.integer()); }
    static adevs::sd_time<double> make(int k) { return k % 3 ? adevs::sd_time<double>(0.5 * (k / 3), k % 3) : adevs::sd_time<double>(0.5 * k, 0); }
};
template <> struct Tm<adevs::double_fcmp> { static uint64_t of(adevs::double_fcmp t) { return Sim::bits((double)t); } static adevs::double_fcmp make(int k) { return adevs::double_fcmp(0.25 * k); } };

// top: 0 graph, 1 coupled models, 2 a single model
template <class Time> struct Discrete : Sim {
    using PV = adevs::PinValue<int>;
    using A = adevs::Atomic<int, Time>;
    using Xb = std::list<PV>;
    int top, variant, nsteps;
    struct Beh {
        Discrete& s; int id, n = 0;
        Beh(Discrete& s, int id) : s(s), id(id) {}
        Time next() { int k = 1 + (n * (2 + s.variant) + id) % 4; return k == 4 && id ? adevs_inf<Time>() : Tm<Time>::make(k); }
        uint64_t bag(Xb const& xb) { uint64_t h = 0; for (auto& x : xb) { int p = -1; for (int i = 0; i < 6; i++) if (s.pins[i] == x.pin) p = i; h += mix(mix(3, p + 1), x.value); } return h; }
        void act(int what, uint64_t a, uint64_t b) { n++; s.saw(id, what, a, b); s.structure(id, n); }
        void out(Xb& yb) { s.saw(id, 9, n); yb.push_back(PV(s.pins[id == 1 ? 2 : (id + n) % 3], 100 * id + n)); if (n % 2) yb.push_back(PV(s.pins[3], -n)); }
    };
    struct Moore : A, Beh {
        Moore(Discrete& s, int id) : Beh(s, id) {}
        Time ta() override { return this->next(); }
        void delta_int() override { this->act(1, 0, 0); }
        void delta_ext(Time e, Xb const& xb) override { this->act(2, Tm<Time>::of(e), this->bag(xb)); }
        void delta_conf(Xb const& xb) override { this->act(3, 0, this->bag(xb)); }
        void output_func(Xb& yb) override { this->out(yb); }
    };
    struct Mealy : adevs::MealyAtomic<int, Time>, Beh {
        Mealy(Discrete& s, int id) : Beh(s, id) {}
        Time ta() override { return this->next(); }
        void delta_int() override { this->act(1, 0, 0); }
        void delta_ext(Time e, Xb const& xb) override { this->act(2, Tm<Time>::of(e), this->bag(xb)); }
        void delta_conf(Xb const& xb) override { this->act(3, 0, this->bag(xb)); }
        void output_func(Xb& yb) override { this->out(yb); }
        void external_output_func(Time, Xb const& xb, Xb& yb) override { this->s.saw(this->id, 10, this->bag(xb)); yb.push_back(PV(this->s.pins[4], (int)xb.size())); }
        void confluent_output_func(Xb const& xb, Xb& yb) override { this->s.saw(this->id, 11, this->bag(xb)); yb.push_back(PV(this->s.pins[4], -(int)xb.size())); }
    };
    struct Listener : adevs::EventListener<int, Time> {
        Discrete& s; Listener(Discrete& s) : s(s) {}
        int id(A& a) { return dynamic_cast<Beh&>(a).id; }
        void outputEvent(A& a, PV& v, Time t) override { s.saw(id(a), 20, v.value, Tm<Time>::of(t)); }
        void inputEvent(A& a, PV& v, Time t) override { s.saw(id(a), 21, v.value, Tm<Time>::of(t)); }
        void stateChange(A& a, Time t) override { s.saw(id(a), 22, 0, Tm<Time>::of(t)); }
    };
    std::vector<adevs::pin_t> pins;
    std::vector<std::shared_ptr<A>> m;
    std::shared_ptr<adevs::Graph<int, Time>> g;
    std::vector<std::shared_ptr<adevs::Coupled<int, Time>>> c;
    std::unique_ptr<adevs::Simulator<int, Time>> sim;
    bool changes = false;
    Discrete(int top, int variant, int cycles, bool changes) : top(top), variant(variant), nsteps(cycles + 2), changes(changes) {}
    // requests made by a model
    void structure(int id, int n) {
        if (!changes || id != 0) return;
        if (top == 0) {
            if (n % 3 == 1) { g->add_atomic(m[3]); g->connect(pins[n % 2], m[3]); g->connect(pins[4], pins[5]); }
            if (n % 3 == 2) g->remove_atomic(m[3]);
            if (n % 3 == 0) g->disconnect(pins[4], pins[5]);
        } else if (top == 1) {
            if (n % 2) { c[1]->add_atomic(m[3]); c[1]->create_coupling(pins[1], m[3]); } else c[1]->remove_atomic(m[3]);
        }
    }
    int steps() const override { return nsteps; }
    void step(int k) override {
        if (k == 0) {
            pins.resize(6);
            for (int i = 0; i < 4; i++) m.push_back(i == 1 ? std::shared_ptr<A>(new Mealy(*this, i)) : std::shared_ptr<A>(new Moore(*this, i)));
            if (top == 0) {
                g = std::make_shared<adevs::Graph<int, Time>>();
                for (int i = 0; i < 3; i++) { g->add_atomic(m[i]); g->connect(pins[i], m[i]); }
                g->connect(pins[4], m[2]); g->connect(pins[3], pins[0]); g->connect(pins[5], m[0]);
                sim.reset(new adevs::Simulator<int, Time>(g));
            } else if (top == 1) {
                for (int i = 0; i < 2; i++) c.push_back(std::make_shared<adevs::Coupled<int, Time>>());
                c[0]->add_atomic(m[0]); c[0]->add_coupled_model(c[1]); c[1]->add_atomic(m[1]); c[1]->add_atomic(m[2]);
                c[0]->create_coupling(pins[0], m[0]); c[0]->create_coupling(pins[0], pins[1]); c[1]->create_coupling(pins[1], m[1]); c[1]->create_coupling(pins[4], m[2]);
                sim.reset(new adevs::Simulator<int, Time>(c[0]));
            } else sim.reset(new adevs::Simulator<int, Time>(m[0]));
            sim->addEventListener(std::make_shared<Listener>(*this));
        } else if (k + 1 == nsteps) {
            sim.reset(); g.reset(); c.clear(); m.clear();
        } else {
            if (sim->nextEventTime() < adevs_inf<Time>()) {
                switch ((k + variant) % 4) {
                    case 0: { PV x(pins[1], 7); sim->injectInput(x); sim->execNextEvent(); break; }
                    case 1: sim->computeNextOutput(); sim->computeNextState(); break;
                    case 2: { sim->computeNextOutput(); PV x(pins[2], 8); sim->injectInput(x); sim->computeNextOutput(); sim->computeNextState(); break; }
                    default: sim->execNextEvent();
                }
            }
            flush(Tm<Time>::of(sim->nextEventTime()));
        }
        flush(k);
    }
};
// ---- hybrid models -----------------------------------------------------------------
struct Continuous : Sim {
    using PV = adevs::PinValue<int>;
    using Xb = std::list<PV>;
    int solver, locator, variant, nsteps;
    struct Sys : adevs::ode_system<int> {
        Continuous& s; int jumps = 0;
        Sys(Continuous& s) : adevs::ode_system<int>(2, s.locator == 4 ? 0 : 1), s(s) {}
        void init(double* q) override { q[0] = 0.5 + s.variant; q[1] = 0; }
        void der_func(double const* q, double* dq) override { s.saw(30, bits(q[0]), bits(q[1])); dq[0] = -0.5 * q[0]; dq[1] = 1; }
        void state_event_func(double const* q, double* z) override { s.saw(31, bits(q[0]), bits(q[1])); z[0] = q[0] - 0.25 * (1 + s.variant); }
        double time_event_func(double const* q) override { return 1.5 - q[1]; }
        bool get_jacobian(double const*, double* J) override { if (s.variant != 1) return false; if (J) { J[0] = -0.5; J[1] = J[2] = J[3] = 0; } return true; }
        void internal_event(double* q, bool const* ev) override { s.saw(32, bits(q[0]), ev[0] + 2 * ev[numEvents()]); q[0] = 1 + 0.125 * ++jumps; q[1] = 0; }
        void external_event(double* q, double e, Xb const& xb) override { s.saw(33, bits(q[0]), bits(e) + xb.size()); q[0] += 0.25; }
        void confluent_event(double* q, bool const*, Xb const& xb) override { s.saw(34, bits(q[0]), xb.size()); q[0] = 2; q[1] = 0; }
        void output_func(double const* q, bool const*, Xb& yb) override { s.saw(35, bits(q[0]), 0); yb.push_back(PV(s.pins[1], jumps)); }
    };
    std::vector<adevs::pin_t> pins;
    std::shared_ptr<adevs::Hybrid<int>> h;
    std::shared_ptr<adevs::Graph<int>> g;
    std::unique_ptr<adevs::Simulator<int>> sim;
    Sys* sys = nullptr;
    Continuous(int solver, int locator, int variant, int cycles) : solver(solver), locator(locator), variant(variant), nsteps(cycles + 2) {}
    int steps() const override { return nsteps; }
    void step(int k) override {
        if (k == 0) {
            pins.resize(2);
            sys = new Sys(*this);
            adevs::ode_solver<int>* so; adevs::event_locator<int>* lo;
            switch (solver) { case 0: so = new adevs::corrected_euler<int>(sys, 1e-2, 0.5); break; case 1: so = new adevs::rk_45<int>(sys, 1e-3, 0.5); break; default: so = new adevs::trap<int>(sys, 1e-2, 0.5); }
            switch (locator) {
                case 0: lo = new adevs::bisection_event_locator<int>(sys, 1e-2); break; case 1: lo = new adevs::linear_event_locator<int>(sys, 1e-2); break;
                case 2: lo = new adevs::discontinuous_event_locator<int>(sys, 1e-2); break; case 3: lo = new adevs::fast_event_locator<int>(sys, 1e-2); break;
                case 4: lo = new adevs::null_event_locator<int>(); break; default: lo = new adevs::fast_event_locator<int>(sys, 1e-2, true);
            }
            h = std::make_shared<adevs::Hybrid<int>>(sys, so, lo);
            g = std::make_shared<adevs::Graph<int>>();
            g->add_atomic(h); g->connect(pins[0], h);
            sim.reset(new adevs::Simulator<int>(g));
        } else if (k + 1 == nsteps) { sim.reset(); g.reset(); h.reset(); }
        else {
            if ((k + variant) % 3 == 0) { PV x(pins[0], 5); sim->injectInput(x); }
            sim->execNextEvent();
            flush(bits(sim->nextEventTime())); flush(bits(h->getState(0))); flush(bits(h->getState(1)));
        }
        flush(k);
    }
};
// ---- a CVODE model with an integrator of its own ------------------------------------
struct Integrator : Sim {
    using PV = adevs::PinValue<int>;
    using Xb = std::list<PV>;
    int variant, nsteps;
    struct M : adevs::CVODE<int> {
        Integrator& s; SUNContext ctx; N_Vector y; double t = 0; int n = 0;
        M(Integrator& s) : s(s) {
#if SUNDIALS_VERSION_MAJOR < 7
            SUNContext_Create(nullptr, &ctx);
#else
            SUNContext_Create(0, &ctx);
#endif
            y = N_VNew_Serial(1, ctx); N_VConst(1.0 + s.variant, y);
        }
        ~M() { N_VDestroy(y); }
        double v() { return N_VGetArrayPointer(y)[0]; }
        void cvode_delta_int() override { s.saw(40, bits(v()), n++); N_VGetArrayPointer(y)[0] += 1; }
        void cvode_delta_ext(double e, Xb const& xb) override { s.saw(41, bits(v()), bits(e) + xb.size()); N_VGetArrayPointer(y)[0] += 2; }
        void cvode_delta_conf(Xb const& xb) override { s.saw(42, bits(v()), xb.size()); N_VGetArrayPointer(y)[0] += 4; }
        void cvode_output_func(Xb& yb) override { s.saw(43, bits(v()), 0); yb.push_back(PV(s.pins[1], 1)); }
        N_Vector cvode_get_state() override { return y; }
        void go(double tf) { N_VGetArrayPointer(y)[0] += (tf - t); t = tf; }
        void cvode_integrate(double& tf, bool& ev) override { s.saw(44, bits(v()), bits(t)); go(t + 0.5 + 0.25 * (n % 2)); tf = t; ev = n % 2 == 0; }
        void cvode_integrate_until(double tf, bool& ev) override { s.saw(45, bits(v()), bits(tf)); go(tf); ev = false; }
        void cvode_reinit(N_Vector y0, double t0) override { s.saw(46, bits(NV_Ith_S(y0, 0)), bits(t0)); N_VScale(1.0, y0, y); t = t0; }
    };
    std::vector<adevs::pin_t> pins;
    std::shared_ptr<M> m; std::shared_ptr<adevs::Graph<int>> g; std::unique_ptr<adevs::Simulator<int>> sim;
    Integrator(int variant, int cycles) : variant(variant), nsteps(cycles + 2) {}
    int steps() const override { return nsteps; }
    void step(int k) override {
        if (k == 0) {
            pins.resize(2); m = std::make_shared<M>(*this); g = std::make_shared<adevs::Graph<int>>();
            g->add_atomic(m); g->connect(pins[0], m); sim.reset(new adevs::Simulator<int>(g));
        } else if (k + 1 == nsteps) {
            SUNContext c = m->ctx; sim.reset(); g.reset(); m.reset(); SUNContext_Free(&c);
        } else {
            if ((k + variant) % 3 == 0) { PV x(pins[0], 5); sim->setNextTime(sim->nextEventTime() - 0.125); sim->injectInput(x); }
            sim->execNextEvent();
            flush(bits(sim->nextEventTime())); flush(bits(m->v()));
        }
        flush(k);
    }
};
static const int KINDS = 15;
static const char* kind_name(int k) {
    static const char* n[KINDS] = {"graph", "graph with changes", "coupled", "coupled with changes", "single", "super dense time", "integer time", "tolerant time",
        "corrected euler/bisection", "corrected euler/linear", "rk45/discontinuous", "rk45/fast", "trap/none", "trap/interpolating", "cvode"};
    return n[k];
}
static Sim* make_sim(int kind, int variant, int cycles) {
    switch (kind) {
        case 0: return new Discrete<double>(0, variant, cycles, false);
        case 1: return new Discrete<double>(0, variant, cycles, true);
        case 2: return new Discrete<double>(1, variant, cycles, false);
        case 3: return new Discrete<double>(1, variant, cycles, true);
        case 4: return new Discrete<double>(2, variant, cycles, false);
        case 5: return new Discrete<adevs::sd_time<double>>(0, variant, cycles, true);
        case 6: return new Discrete<int>(0, variant, cycles, true);
        case 7: return new Discrete<adevs::double_fcmp>(0, variant, cycles, true);
        case 8: return new Continuous(0, 0, variant, cycles);
        case 9: return new Continuous(0, 1, variant, cycles);
        case 10: return new Continuous(1, 2, variant, cycles);
        case 11: return new Continuous(1, 3, variant, cycles);
        case 12: return new Continuous(2, 4, variant, cycles);
        case 13: return new Continuous(2, 5, variant, cycles);
        default: return new Integrator(variant, cycles);
    }
}
