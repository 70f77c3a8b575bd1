// A laboratory for simulators: models whose every behaviour (time advance,
// output, structural requests) is a decision of the explorer, a plain reference
// simulator written from the documentation (linear scans, no queue, no sets of
// pointers), and the comparison of the two in lock step.
#pragma once
#include "mc.h"
#include <any>
#include <memory>
#include "adevs/adevs.h"

// the user of double_fcmp defines its tolerance
__attribute__((weak)) double adevs::double_fcmp::epsilon = 1e-12;

namespace lab {
using u64 = uint64_t;

// ---- reference time: (r,k) with k used only by super dense clocks ----------
struct RT {
    long r = 0; int k = 0; bool inf = false;
    bool operator==(RT const& o) const { return inf == o.inf && (inf || (r == o.r && k == o.k)); }
    bool operator!=(RT const& o) const { return !(*this == o); }
    bool operator<(RT const& o) const { if (inf || o.inf) return !inf && o.inf; return r < o.r || (r == o.r && k < o.k); }
    bool neg() const { return !inf && (r < 0 || (r == 0 && k < 0)); }
    std::string str() const { return inf ? "inf" : "(" + std::to_string(r) + "," + std::to_string(k) + ")"; }
};
inline RT INF() { RT t; t.inf = true; return t; }
inline RT D(long r, int k = 0) { RT t; t.r = r; t.k = k; return t; }

template <class T> struct Clock;  // conversion between RT and the clock type
#define LAB_SCALAR(TYPE, UNIT)                                                                           \
    template <> struct Clock<TYPE> {                                                                     \
        static constexpr bool sd = false;                                                                \
        static TYPE to(RT t) { return t.inf ? adevs_inf<TYPE>() : (TYPE)(t.r * (UNIT)); }                \
        static RT from(TYPE t) { if (t == adevs_inf<TYPE>()) return INF(); RT x; x.r = (long)(t / (UNIT)); \
            if ((TYPE)(x.r * (UNIT)) != t) x.k = -999; return x; }                                       \
        static const char* name() { return #TYPE; }                                                      \
    };
LAB_SCALAR(double, 0.5)
LAB_SCALAR(float, 0.25f)
LAB_SCALAR(long double, 0.125L)
LAB_SCALAR(int, 3)
LAB_SCALAR(long, 5L)
template <> struct Clock<adevs::double_fcmp> {
    static constexpr bool sd = false;
    static adevs::double_fcmp to(RT t) { return t.inf ? adevs_inf<adevs::double_fcmp>() : adevs::double_fcmp(t.r * 0.5); }
    static RT from(adevs::double_fcmp t) { double d = (double)t; if (d == std::numeric_limits<double>::max()) return INF(); return D((long)(d / 0.5 + (d < 0 ? -0.25 : 0.25))); }
    static const char* name() { return "double_fcmp"; }
};
#define LAB_SD(TYPE, UNIT)                                                                                        \
    template <> struct Clock<adevs::sd_time<TYPE>> {                                                              \
        static constexpr bool sd = true;                                                                          \
        static adevs::sd_time<TYPE> to(RT t) { return t.inf ? adevs_inf<adevs::sd_time<TYPE>>() : adevs::sd_time<TYPE>((TYPE)(t.r * (UNIT)), t.k); } \
        static RT from(adevs::sd_time<TYPE> t) { if (t == adevs_inf<adevs::sd_time<TYPE>>()) return INF(); RT x; x.r = (long)(t.real() / (UNIT)); x.k = (int)t.integer(); \
            if ((TYPE)(x.r * (UNIT)) != t.real()) x.k = -999; return x; }                                         \
        static const char* name() { return "sd_time<" #TYPE ">"; }                                                \
    };
LAB_SD(double, 0.5)
LAB_SD(int, 3)
LAB_SD(long, 5L)

template <class T> RT radd(RT a, RT d) {
    if (a.inf || d.inf) return INF();
    if (!Clock<T>::sd) return D(a.r + d.r);
    if (d.r == 0) return D(a.r, a.k + d.k);
    return D(a.r + d.r, d.k);
}
template <class T> RT rsub(RT a, RT b) {  // interval from b to a
    if (!Clock<T>::sd) return D(a.r - b.r);
    if (a.r == b.r) return D(0, a.k - b.k);
    return D(a.r - b.r, a.k);
}
template <class T> RT reps() { return Clock<T>::sd ? D(0, 1) : D(0); }

template <class V> V mkv(u64 x) { return (V)x; }
template <> inline std::any mkv<std::any>(u64 x) { return std::any(x); }
template <class V> u64 unv(V const& v) { return (u64)v; }
template <> inline u64 unv<std::any>(std::any const& v) { return std::any_cast<u64>(v); }

// A pool of pins shared by all executions (creating pins is another property).
inline adevs::pin_t& pin(int i) { static std::vector<adevs::pin_t> p(512); return p[i]; }
inline int pin_index(adevs::pin_t const& p) {
    static std::map<adevs::pin_t, int> m;
    if (m.empty()) for (int i = 0; i < 512; i++) m[pin(i)] = i;
    auto f = m.find(p);
    return f == m.end() ? -1 : f->second;
}

struct In { int pin; u64 v; bool operator<(In const& o) const { return pin != o.pin ? pin < o.pin : v < o.v; } bool operator==(In const& o) const { return pin == o.pin && v == o.v; } };
using Ins = std::vector<In>;
inline std::string str(Ins const& x) { std::string s = "{"; for (auto& i : x) { char b[64]; snprintf(b, sizeof b, "%sp%d:%04x", s.size() > 1 ? " " : "", i.pin, (unsigned)(i.v & 0xffff)); s += b; } return s + "}"; }

struct Tr { int id; char kind; RT e; Ins in; };
inline std::string str(Tr const& t) { return "m" + std::to_string(t.id) + (t.kind == 'i' ? " internal" : t.kind == 'c' ? " confluent" : " external") + (t.kind == 'e' ? " e=" + t.e.str() : std::string()) + (t.in.empty() ? std::string() : " inputs " + str(t.in)); }

enum OpKind { ADD, REM, RPIN, CPP, DPP, CPA, DPA, CUSTOM };
struct Op { OpKind k; int a, b, c = 0; };
inline std::string str(Op o) { if (o.k >= CUSTOM) return "custom(" + std::to_string(o.k - CUSTOM) + ";" + std::to_string(o.a) + "," + std::to_string(o.b) + "," + std::to_string(o.c) + ")"; static const char* n[] = {"add_atomic", "remove_atomic", "remove_pin", "connect_pin", "disconnect_pin", "connect_model", "disconnect_model"}; return std::string(n[o.k]) + "(" + std::to_string(o.a) + "," + std::to_string(o.b) + ")"; }

struct OutRec { int id; In y; bool operator<(OutRec const& o) const { return id != o.id ? id < o.id : y < o.y; } bool operator==(OutRec const& o) const { return id == o.id && y == o.y; } };

// What a model may do.
struct Spec {
    bool mealy = false;
    std::vector<RT> ta;                          // menu of time advances, first = default
    std::vector<std::vector<int>> out;           // Moore: menu of output pin lists, first = default
    int rule = 0;                                // Mealy: rule (see mealy_out)
    std::vector<int> mpins;                      // Mealy: pins of the rule
    std::vector<std::vector<Op>> ops;            // menu of structural requests in a transition (first = none)
};

// the output of a Mealy model as a function of (state, kind, e, inputs)
inline std::vector<In> mealy_out(Spec const& s, int id, int n, char kind, RT e, Ins const& in) {
    u64 h = mc::mix(mc::mix(mc::mix(1234 + id, n), kind), kind == 'e' ? (u64)(e.r * 131 + e.k) : 7);
    for (auto& i : in) h = mc::mix(mc::mix(h, i.pin), i.v);
    std::vector<In> y;
    auto emit = [&](size_t p, u64 v) { if (p < s.mpins.size()) y.push_back({s.mpins[p], v}); };
    switch (s.rule) {
        case 0: for (size_t p = 0; p < s.mpins.size(); p++) emit(p, h + p); break;           // always, on every pin
        case 1: if (in.size() % 2 == 1) emit(0, h); break;                                   // odd number of inputs
        case 2: if (in.size() >= 2) emit(0, h); break;                                       // at least two
        case 3: for (auto& i : in) emit(0, mc::mix(h, i.v)); if (kind == 'i') emit(0, h); break;  // one per input
        case 4: if (in.size() <= 1) emit(0, h); break;                                       // at most one
        case 5: emit(h % 2 ? 0 : 1, h); break;                                               // pin depends on input
        case 6: if (kind != 'e') emit(0, h); break;                                          // only when imminent
        case 7: if (kind == 'e') emit(0, h); break;                                          // only when not imminent
        case 8: break;                                                                       // never
    }
    return y;
}

template <class V, class T> struct World;

template <class V, class T> struct Core {
    World<V, T>* w; int id; int n = 0;
    static Ins conv(std::list<adevs::PinValue<V>> const& x) { Ins r; for (auto& i : x) r.push_back({pin_index(i.pin), unv<V>(i.value)}); std::sort(r.begin(), r.end()); return r; }
};
template <class V, class T> struct Moore : adevs::Atomic<V, T>, Core<V, T> {
    using L = std::list<adevs::PinValue<V>>;
    void delta_int() override { this->w->transition(this->id, 'i', RT(), Ins()); this->n++; }
    void delta_ext(T e, L const& x) override { this->w->transition(this->id, 'e', Clock<T>::from(e), this->conv(x)); this->n++; }
    void delta_conf(L const& x) override { this->w->transition(this->id, 'c', RT(), this->conv(x)); this->n++; }
    void output_func(L& y) override { this->w->moore_output(this->id, y); }
    T ta() override { return Clock<T>::to(this->w->ta(this->id, this->n)); }
    ~Moore() { this->w->died(this->id); }
};
template <class V, class T> struct Mealy : adevs::MealyAtomic<V, T>, Core<V, T> {
    using L = std::list<adevs::PinValue<V>>;
    void delta_int() override { this->w->transition(this->id, 'i', RT(), Ins()); this->n++; }
    void delta_ext(T e, L const& x) override { this->w->transition(this->id, 'e', Clock<T>::from(e), this->conv(x)); this->n++; }
    void delta_conf(L const& x) override { this->w->transition(this->id, 'c', RT(), this->conv(x)); this->n++; }
    void output_func(L& y) override { this->w->mealy_output(this->id, 'i', RT(), Ins(), y); }
    void external_output_func(T e, L const& x, L& y) override { this->w->mealy_output(this->id, 'e', Clock<T>::from(e), this->conv(x), y); }
    void confluent_output_func(L const& x, L& y) override { this->w->mealy_output(this->id, 'c', RT(), this->conv(x), y); }
    T ta() override { return Clock<T>::to(this->w->ta(this->id, this->n)); }
    ~Mealy() { this->w->died(this->id); }
};

// records of one listener
struct LEv { char k; int id; In v; RT t; int n; };
template <class V, class T> struct Listener : adevs::EventListener<V, T> {
    World<V, T>* w; int no;
    void outputEvent(adevs::Atomic<V, T>& m, adevs::PinValue<V>& v, T t) override { w->listen(no, 'o', m, &v, t); }
    void inputEvent(adevs::Atomic<V, T>& m, adevs::PinValue<V>& v, T t) override { w->listen(no, 'x', m, &v, t); }
    void stateChange(adevs::Atomic<V, T>& m, T t) override { w->listen(no, 's', m, nullptr, t); }
};

// ---- reference --------------------------------------------------------------
struct RefGraph {
    std::map<std::pair<int, int>, int> pp, pa;  // pin->pin, pin->model with counts
    std::map<int, int> models;                  // instance counts
    void apply(Op o) {
        switch (o.k) {
            case ADD: models[o.a]++; break;
            case REM: if (models.count(o.a) && --models[o.a] == 0) { models.erase(o.a); for (auto i = pa.begin(); i != pa.end();) i = i->first.second == o.a ? pa.erase(i) : std::next(i); } break;
            case RPIN: dec(pa, [&](auto& k) { return k.first == o.a; }); dec(pp, [&](auto& k) { return k.first == o.a || k.second == o.a; }); break;
            case CPP: pp[{o.a, o.b}]++; break;
            case DPP: dec(pp, [&](auto& k) { return k.first == o.a && k.second == o.b; }); break;
            case CPA: pa[{o.a, o.b}]++; break;
            case DPA: dec(pa, [&](auto& k) { return k.first == o.a && k.second == o.b; }); break;
        }
    }
    template <class M, class F> static void dec(M& m, F f) { for (auto i = m.begin(); i != m.end();) { if (f(i->first) && --i->second == 0) i = m.erase(i); else ++i; } }
    void route(int p, std::vector<std::pair<int, int>>& r) const {
        for (auto i = pa.lower_bound({p, -1}); i != pa.end() && i->first.first == p; ++i) r.push_back(i->first);
        for (auto i = pp.lower_bound({p, -1}); i != pp.end() && i->first.first == p; ++i) route(i->first.second, r);
    }
};

struct Expect { std::vector<Tr> tr; std::vector<OutRec> outs; RT tnext; RT ret; bool cycle = false; };

// ---- world -------------------------------------------------------------------
template <class V, class T> struct World {
    using Atom = adevs::Atomic<V, T>;
    using SP = std::shared_ptr<Atom>;
    using Sim = adevs::Simulator<V, T>;
    using G = adevs::Graph<V, T>;
    std::vector<Spec> spec;
    std::vector<SP> mod;
    std::vector<Atom*> raw;
    std::shared_ptr<G> graph;         // what structural requests are addressed to
    std::unique_ptr<Sim> sim;
    // behaviour, decided once per (model, transition count) and used by both sides
    std::vector<std::vector<int>> taM, outM, opM;
    int dev = 1 << 30;                // how many non-default behaviours are left in this execution
    bool refside = false;             // the reference is running: no new decisions
    std::string refask;
    // log of the implementation
    std::vector<Tr> tr; std::vector<OutRec> outs; std::vector<Op> oplog; std::vector<std::vector<LEv>> lev = std::vector<std::vector<LEv>>(4);
    std::vector<int> outcalls, alive;
    std::vector<int> lastn;
    int nlisten = 0;
    int phase = 0;  // 1 output, 2 state
    std::function<void(int id, char kind)> on_transition;
    bool check_listeners = false;
    // reference state
    struct RM { RT tL, tN; int n = 0; };
    std::vector<RM> rm; RefGraph rg;
    RT rtime;
    bool aborted = false;

    ~World() { sim.reset(); graph.reset(); mod.clear(); }

    int decide(std::vector<std::vector<int>>& memo, int id, int n, int width, const char* what) {
        auto& v = memo[id];
        while ((int)v.size() <= n) v.push_back(-1);
        if (v[n] < 0) {
            if (refside) mc::fail("the simulator never asked m%d for its %s after %d transitions, the reference needs it", id, what, n);
            if (width <= 1 || dev <= 0) v[n] = 0;
            else { v[n] = mc::choose(width); if (v[n]) dev--; }
        }
        return v[n];
    }
    RT ta(int id, int n) { int k = decide(taM, id, n, spec[id].ta.size(), "time advance"); return spec[id].ta[k]; }
    std::vector<In> moore(int id, int n) {
        if (spec[id].out.empty()) return {};
        int k = decide(outM, id, n, spec[id].out.size(), "output");
        std::vector<In> y; int s = 0;
        for (int p : spec[id].out[k]) { y.push_back({p, mc::mix(mc::mix(77 + id, n), s)}); s++; }
        return y;
    }
    std::vector<Op> const& ops(int id, int n) { static const std::vector<Op> none; if (spec[id].ops.empty()) return none; return spec[id].ops[decide(opM, id, n, spec[id].ops.size(), "structural request")]; }

    Core<V, T>* core(int id) { return spec[id].mealy ? (Core<V, T>*)static_cast<Mealy<V, T>*>(raw[id]) : (Core<V, T>*)static_cast<Moore<V, T>*>(raw[id]); }
    int nof(int id) { return core(id)->n; }
    int idof(Atom* a) { for (size_t i = 0; i < raw.size(); i++) if (raw[i] == a) return (int)i; return -1; }

    // --- callbacks of the implementation
    void transition(int id, char kind, RT e, Ins in) {
        if (phase < 2) mc::fail("m%d has a transition while output is computed", id);
        mc::trace("    m%d %s", id, str(Tr{id, kind, e, in}).c_str());
        tr.push_back({id, kind, e, in});
        for (Op o : ops(id, nof(id))) { oplog.push_back(o); mc::trace("    m%d requests %s", id, str(o).c_str()); request(o); }
        if (on_transition) on_transition(id, kind);
    }
    void moore_output(int id, std::list<adevs::PinValue<V>>& y) {
        if (!(phase & 1)) mc::fail("the output function of m%d is called outside of output computation", id);
        if (!y.empty()) mc::fail("the output function of m%d is given a list that is not empty", id);
        outcalls[id]++;
        for (auto& o : moore(id, nof(id))) y.push_back(adevs::PinValue<V>(pin(o.pin), mkv<V>(o.v)));
    }
    void mealy_output(int id, char kind, RT e, Ins in, std::list<adevs::PinValue<V>>& y) {
        if (!(phase & 1)) mc::fail("an output function of m%d is called outside of output computation", id);
        if (!y.empty()) mc::fail("the output function of m%d is given a list that is not empty", id);
        mc::trace("    output of %s", str(Tr{id, kind, e, in}).c_str());
        for (auto& o : mealy_out(spec[id], id, nof(id), kind, e, in)) y.push_back(adevs::PinValue<V>(pin(o.pin), mkv<V>(o.v)));
    }
    void died(int id) { alive[id]--; if (alive[id] < 0) mc::internal("double destruction"); }
    void listen(int no, char k, Atom& m, adevs::PinValue<V>* v, T t) {
        int id = idof(&m);
        if (id < 0) mc::fail("listener %d is called with an unknown model", no);
        LEv e{k, id, v ? In{pin_index(v->pin), unv<V>(v->value)} : In{0, 0}, Clock<T>::from(t), nof(id)};
        lev[no].push_back(e);
        if (no == 0 && k == 'o') outs.push_back({id, e.v});
        if (phase != 3 && (k == 'o') != (phase == 1)) mc::fail("listener %d is told of %s at the wrong moment", no, k == 'o' ? "an output" : k == 'x' ? "an input" : "a state change");
    }

    // --- construction
    // slot[i] is the position of model i in memory
    static const size_t SLOT = 1024;
    static char* arena(int slot) { static std::vector<char> mem(SLOT * 2200 + 64); char* b = mem.data(); b += 64 - ((size_t)b % 64); if (slot >= 2200) mc::internal("arena"); return b + SLOT * slot; }
    void make(std::vector<Spec> s, std::vector<int> slot = {}) {
        spec = std::move(s);
        int n = spec.size();
        static_assert(sizeof(Mealy<V, T>) <= SLOT, "slot");
        taM.resize(n); outM.resize(n); opM.resize(n); outcalls.assign(n, 0); alive.assign(n, 1); rm.resize(n); raw.resize(n);
        for (int i = 0; i < n; i++) {
            void* p = arena(slot.empty() ? i : slot[i]);
            if (spec[i].mealy) { auto* m = new (p) Mealy<V, T>(); m->w = this; m->id = i; raw[i] = m; mod.push_back(SP(m, [](Mealy<V, T>* x) { x->~Mealy<V, T>(); })); }
            else { auto* m = new (p) Moore<V, T>(); m->w = this; m->id = i; raw[i] = m; mod.push_back(SP(m, [](Moore<V, T>* x) { x->~Moore<V, T>(); })); }
        }
        graph = std::make_shared<G>();
    }
    void apply(G& g, Op o) {
        switch (o.k) {
            case ADD: g.add_atomic(mod[o.a]); break;
            case REM: g.remove_atomic(mod[o.a]); break;
            case RPIN: g.remove_pin(pin(o.a)); break;
            case CPP: g.connect(pin(o.a), pin(o.b)); break;
            case DPP: g.disconnect(pin(o.a), pin(o.b)); break;
            case CPA: g.connect(pin(o.a), mod[o.b]); break;
            case DPA: g.disconnect(pin(o.a), mod[o.b]); break;
        }
    }
    std::function<void(Op)> custom_request; std::function<void(Op, RT)> custom_ref;
    void request(Op o) { if (o.k >= CUSTOM) custom_request(o); else apply(*graph, o); }
    // structural operation before the simulation starts
    void setup(Op o) { apply(*graph, o); rg.apply(o); }
    void add_all() { for (size_t i = 0; i < mod.size(); i++) setup({ADD, (int)i, 0}); }
    void listeners(int k) {
        nlisten = k; if (k > (int)lev.size()) lev.resize(k);
        for (int i = 0; i < k; i++) { auto l = std::make_shared<Listener<V, T>>(); l->w = this; l->no = i; sim->addEventListener(l); }
    }
    // how: 0 graph, 1 coupled, 2 single atomic (model 0)
    void start(int how = 0, std::shared_ptr<adevs::Coupled<V, T>> c = nullptr) {
        if (how == 0) sim.reset(new Sim(graph));
        else if (how == 1) sim.reset(new Sim(c));
        else sim.reset(new Sim(mod[0]));
        ref_start();
        RT a = Clock<T>::from(sim->nextEventTime()), b = ref_next();
        if (a != b) mc::fail("the first event time is %s, expected %s", a.str().c_str(), b.str().c_str());
    }
    // One cycle as the environment chooses it: at the next event time or at one of
    // the earlier instants rtime+early[i], with one of the injections.
    // Returns false when there is nothing left to do.
    bool env_cycle(std::vector<RT> const& early, std::vector<std::vector<int>> const& inj) {
        RT tn = ref_next();
        struct C { RT t; int i; bool set; };
        std::vector<C> c;
        if (!tn.inf) for (size_t i = 0; i < std::max<size_t>(1, inj.size()); i++) c.push_back({tn, (int)i, false});
        for (RT d : early) { RT t = radd<T>(rtime, d); if (t < tn) for (size_t i = 0; i < std::max<size_t>(1, inj.size()); i++) c.push_back({t, (int)i, true}); }
        if (c.empty()) return false;
        C k = c[0];
        if (dev > 0 && c.size() > 1) { int x = mc::choose(c.size()); if (x) dev--; k = c[x]; }
        Ins y;
        if (!inj.empty()) for (size_t j = 0; j < inj[k.i].size(); j++) y.push_back({inj[k.i][j], mc::mix(mc::mix(999, ninj), j)});
        ninj++;
        if (!envops.empty() && dev > 0) {  // structural requests from outside, between two cycles
            int o = mc::choose(envops.size());
            if (o) { dev--; for (Op q : envops[o]) { oplog.push_back(q); mc::trace("  the user requests %s", str(q).c_str()); request(q); } }
        }
        if (k.set) { mc::trace("  setNextTime %s", k.t.str().c_str()); sim->setNextTime(Clock<T>::to(k.t)); }
        cycle(k.t, y);
        return true;
    }
    int ninj = 0;
    std::vector<std::vector<Op>> envops;
    // a connection to a model that is not in the simulation is the user's error
    bool dangling() { for (auto& e : rg.pa) if (!rg.models.count(e.first.second)) return true; return false; }
    void ref_start() {
        refside = true;
        for (auto& m : rg.models) { rm[m.first].tL = D(0); rm[m.first].n = 0; rm[m.first].tN = radd<T>(D(0), ta(m.first, 0)); }
        refside = false;
    }
    RT ref_next() { RT b = INF(); for (auto& m : rg.models) if (rm[m.first].tN < b) b = rm[m.first].tN; return b; }

    // One cycle of the reference at time t with injected inputs (pin,value).
    Expect ref_cycle(RT t, Ins const& inj, bool outputs_only = false) {
        Expect x; refside = true;
        std::map<int, Ins> in; std::set<int> imm, mealytrig;
        for (auto& m : rg.models) if (rm[m.first].tN == t && !t.inf) imm.insert(m.first);
        auto deliver = [&](In y) {
            std::vector<std::pair<int, int>> r; rg.route(y.pin, r);
            for (auto& c : r) in[c.second].push_back({c.first, y.v});
        };
        for (auto& y : inj) deliver(y);
        for (int id : imm) if (!spec[id].mealy) for (auto& y : moore(id, rm[id].n)) { x.outs.push_back({id, y}); deliver(y); }
        // Mealy models in topological order of the Mealy-to-Mealy edges (all pins of the rule)
        std::set<int> todo; for (auto& m : rg.models) if (spec[m.first].mealy) todo.insert(m.first);
        std::map<int, std::set<int>> succ;
        for (int id : todo) for (int p : spec[id].mpins) { std::vector<std::pair<int, int>> r; rg.route(p, r); for (auto& c : r) if (todo.count(c.second)) succ[id].insert(c.second); }
        while (!todo.empty()) {
            int pick = -1;
            for (int id : todo) { bool ready = true; for (int o : todo) if (succ[o].count(id)) ready = false; if (ready) { pick = id; break; } }
            if (pick < 0) mc::internal("reference used on a Mealy cycle");
            todo.erase(pick);
            Ins& i = in[pick]; std::sort(i.begin(), i.end());
            bool im = imm.count(pick);
            if (i.empty() && !im) continue;
            char kind = i.empty() ? 'i' : im ? 'c' : 'e';
            for (auto& y : mealy_out(spec[pick], pick, rm[pick].n, kind, kind == 'e' ? rsub<T>(t, rm[pick].tL) : RT(), i)) { x.outs.push_back({pick, y}); deliver(y); }
        }
        RT after = radd<T>(t, reps<T>());
        for (auto& m : rg.models) {
            int id = m.first; Ins i = in[id]; std::sort(i.begin(), i.end());
            bool im = imm.count(id);
            if (i.empty() && !im) continue;
            char kind = i.empty() ? 'i' : im ? 'c' : 'e';
            x.tr.push_back({id, kind, kind == 'e' ? rsub<T>(t, rm[id].tL) : RT(), i});
        }
        if (outputs_only) { refside = false; return x; }
        for (auto& r : x.tr) { RM& m = rm[r.id]; m.n++; m.tL = after; m.tN = radd<T>(after, ta(r.id, m.n)); }
        // structural changes, in the order of the requests
        for (Op o : oplog) {
            if (o.k >= CUSTOM) { custom_ref(o, after); continue; }
            bool was = rg.models.count(o.a);
            rg.apply(o);
            if (o.k == ADD && !was) { RM& m = rm[o.a]; m.tL = after; m.tN = radd<T>(after, ta(o.a, m.n)); }
        }
        rtime = after;
        x.ret = after; x.tnext = ref_next();
        refside = false;
        return x;
    }

    // --- driving the implementation
    void clear_log() { tr.clear(); outs.clear(); for (auto& l : lev) l.clear(); std::fill(outcalls.begin(), outcalls.end(), 0); }
    void impl_output() { phase = 1; sim->computeNextOutput(); phase = 0; }
    RT impl_state() { phase = 2; T t = sim->computeNextState(); phase = 0; return Clock<T>::from(t); }

    static std::string show(std::vector<Tr> const& v) { std::string s; for (auto& t : v) s += "\n      " + str(t); return s.empty() ? " none" : s; }
    void compare_tr(std::vector<Tr> const& e) {
        mc::compared();
        std::vector<Tr> a = tr, b = e;
        auto lt = [](Tr const& x, Tr const& y) { return x.id < y.id; };
        std::stable_sort(a.begin(), a.end(), lt); std::stable_sort(b.begin(), b.end(), lt);
        bool same = a.size() == b.size();
        for (size_t i = 0; same && i < a.size(); i++) same = a[i].id == b[i].id && a[i].kind == b[i].kind && a[i].in == b[i].in && (a[i].kind != 'e' || a[i].e == b[i].e);
        if (!same) mc::fail("transitions of this cycle:%s\n    expected:%s", show(a).c_str(), show(b).c_str());
    }
    void compare_outs(std::vector<OutRec> b) {
        if (!nlisten) return;
        mc::compared();
        std::vector<OutRec> a = outs; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (!(a == b)) {
            std::string s = "outputs reported in this cycle:"; for (auto& o : a) s += " m" + std::to_string(o.id) + str(Ins{o.y});
            s += " expected:"; for (auto& o : b) s += " m" + std::to_string(o.id) + str(Ins{o.y});
            mc::fail("%s", s.c_str());
        }
    }
    void compare_moore_calls(RT t, Expect const&, std::set<int> const& imm) {
        for (size_t i = 0; i < spec.size(); i++) if (!spec[i].mealy) {
            int w = imm.count(i) ? 1 : 0;
            if (outcalls[i] != w) mc::fail("the output function of m%zu is called %d times at %s, expected %d", i, outcalls[i], t.str().c_str(), w);
        }
    }
    std::set<int> ref_imm(RT t) { std::set<int> s; for (auto& m : rg.models) if (rm[m.first].tN == t && !t.inf) s.insert(m.first); return s; }
    u64 fingerprint() {
        u64 h = 3; for (auto& m : rg.models) { RM& r = rm[m.first]; RT d = r.tN.inf ? INF() : rsub<T>(r.tN, rtime), e = rsub<T>(rtime, r.tL); h = mc::mix(mc::mix(mc::mix(mc::mix(h, m.first), d.inf ? -1 : d.r * 8 + d.k), e.r * 8 + e.k), m.second); }
        for (auto& p : rg.pa) h = mc::mix(h, p.first.first * 1000 + p.first.second * 10 + p.second);
        for (auto& p : rg.pp) h = mc::mix(h, p.first.first * 3000 + p.first.second * 10 + p.second);
        return h;
    }
    void state_fp() { u64 h = fingerprint(); for (auto& r : rm) h = mc::mix(h, r.n); for (auto& v : taM) for (int c : v) h = mc::mix(h, c + 2); for (auto& v : outM) for (int c : v) h = mc::mix(h, c + 2); mc::state(h); }

    void compare_after(Expect const& x, RT ret) {
        mc::compared();
        RT tn = Clock<T>::from(sim->nextEventTime());
        if (ret != x.ret) mc::fail("the simulation time is %s after the cycle, expected %s", ret.str().c_str(), x.ret.str().c_str());
        if (tn != x.tnext) mc::fail("the next event time is %s, expected %s", tn.str().c_str(), x.tnext.str().c_str());
        state_fp();
    }
    // A complete cycle at the simulator's next event time (which must be what the reference says).
    void cycle(RT t, Ins const& inj) {
        mc::trace("  cycle at %s%s%s", t.str().c_str(), inj.empty() ? "" : " injecting ", inj.empty() ? "" : str(inj).c_str());
        mc::step();
        clear_log();
        for (auto& y : inj) { adevs::PinValue<V> pv(pin(y.pin), mkv<V>(y.v)); sim->injectInput(pv); }
        auto imm = ref_imm(t);
        impl_output();
        RT ret = impl_state();
        Expect x = ref_cycle(t, inj);
        compare_moore_calls(t, x, imm);
        compare_tr(x.tr);
        compare_outs(x.outs);
        if (check_listeners) compare_listeners(t, x);
        compare_after(x, ret);
        oplog.clear();
    }
    // every listener: all outputs, then per model inputs before the state change; same for all
    void compare_listeners(RT t, Expect const& x) {
        for (int l = 0; l < nlisten; l++) {
            mc::compared();
            auto& L = lev[l];
            if (l > 0) {
                bool same = L.size() == lev[0].size();
                for (size_t i = 0; same && i < L.size(); i++) same = L[i].k == lev[0][i].k && L[i].id == lev[0][i].id && L[i].v == lev[0][i].v;
                if (!same) mc::fail("listener %d sees other events than listener 0", l);
            }
            std::vector<OutRec> o; std::map<int, Ins> in; std::map<int, int> st;
            std::vector<int> trorder;
            for (auto& e : L) {
                if (e.t != t) mc::fail("listener %d is told of an event of m%d at time %s, the event is at %s", l, e.id, e.t.str().c_str(), t.str().c_str());
                if (e.k == 'o') o.push_back({e.id, e.v});
                if (e.k == 'x') { in[e.id].push_back(e.v); if (st.count(e.id)) mc::fail("listener %d is told of an input of m%d after its state change", l, e.id); }
                if (e.k == 's') {
                    st[e.id]++;
                    bool found = false;
                    for (auto& r : x.tr) if (r.id == e.id) found = true;
                    if (!found) mc::fail("listener %d is told of a state change of m%d which has no event", l, e.id);
                    if (e.n != rm[e.id].n) mc::fail("listener %d is told of the state change of m%d when its new state is not visible", l, e.id);
                    trorder.push_back(e.id);
                } else if (e.k == 'x' && e.n != rm[e.id].n - 1) mc::fail("listener %d is told of an input of m%d after its transition", l, e.id);
            }
            std::sort(o.begin(), o.end()); auto xo = x.outs; std::sort(xo.begin(), xo.end());
            if (!(o == xo)) mc::fail("listener %d is told of %zu outputs, %zu were produced (or they differ)", l, o.size(), xo.size());
            for (auto& r : x.tr) {
                Ins i = in[r.id]; std::sort(i.begin(), i.end());
                if (!(i == r.in)) mc::fail("listener %d is told of inputs %s of m%d which has %s", l, str(i).c_str(), r.id, str(r.in).c_str());
                if (st[r.id] != 1) mc::fail("listener %d is told %d times of the state change of m%d", l, st[r.id], r.id);
                in.erase(r.id);
            }
            for (auto& i : in) if (!i.second.empty()) mc::fail("listener %d is told of inputs of m%d which has none", l, i.first);
        }
    }
};

// all subsets of {0..n-1} as pin lists: pin base+mask leads to the models in mask
inline std::vector<std::vector<int>> subset_menu(int base, int n, bool empty_first = true) {
    std::vector<std::vector<int>> m; if (empty_first) m.push_back({});
    for (int s = 1; s < (1 << n); s++) m.push_back({base + s});
    if (!empty_first) m.push_back({});
    return m;
}
}  // namespace lab
