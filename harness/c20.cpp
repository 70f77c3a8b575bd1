// C20: the FMI model exchange wrapper inside Hybrid with the real solvers and
// locators, on a mock of the FMI Library that implements the FMI 2.0 state machine
// for model exchange. The mock's FMU has piecewise constant dynamics, so that
// its exact trajectory is known; what it answers at each event and at
// the end of each step is chosen by the explorer.
#include "fmilib.h"
#include <cassert>
#include <cmath>
#include <list>
#include <map>
#include <memory>
#include <adevs/adevs.h>
#include <adevs/solvers/corrected_euler.h>
#include <adevs/solvers/event_locators.h>
#include <adevs/solvers/fmi.h>
#include <adevs/solvers/rk_45.h>
#include <adevs/solvers/trap.h>
#include "mc.h"
#include <cstring>
extern "C" size_t __sanitizer_get_current_allocated_bytes();

using PV = adevs::PinValue<int>;
using Xb = std::list<PV>;
static const double INF = adevs_inf<double>();

struct Cfg {
    int N = 1, M = 1;
    int solver = 0, locator = 0;
    double h_max = 4;
    int cycles = 6, dev = 3, inputs = 2;
    bool jac = true;
    bool rolls = false;   // output may be computed before an input at an earlier time
    int version = fmi_version_2_0_enu, kind = fmi2_fmu_kind_me;
    bool parses = true;
    int nonlinear = 0;
};
enum Mode { Parsed, Loaded, Instantiated, Init, Event, Cont, Terminated };
static const char* modes[] = {"parsed", "loaded", "instantiated", "initialization", "event", "continuous time", "terminated"};
struct Rig;
static Rig* R = nullptr;
#define BAD(...) mc::fail(__VA_ARGS__)

// the same in functions that destructors call: told at the end
#define LATE(...) do { if (R->late.empty()) { char b_[300]; snprintf(b_, sizeof b_, __VA_ARGS__); R->late = b_; } } while (0)

struct Var { const char* name; fmi2_value_reference_t vr; fmi2_base_type_enu_t type; };
struct fmi2_import_variable_t { Var v; };
struct fmi2_import_variable_list_t { std::vector<fmi2_import_variable_t> v; };
struct fmi_import_context_t { int x; };
struct fmi2_import_t {
    Mode mode = Parsed;
    int N, M;
    double t = 0, x[4] = {0}, rate[4], par = 3.5, xs[4];
    int k = 7, enu = 2; bool b = false; std::string str = "abc";
    bool needed = true;         // new discrete states must be asked for before time goes on
    double tdone = 0;           // last completed step or event
    bool request = false;       // event mode asked for
    double next = INF;          // next time event
    double t0 = 0, x0[4];       // start of the current continuous piece
    bool tset = false, xset = false;
    fmi2_import_t(int N, int M) : N(N), M(M) { for (int i = 0; i < 4; i++) { x[i] = x0[i] = i; rate[i] = i + 1; } }
};
struct Rig {
    Cfg const& cfg; int budget;
    Rig(Cfg const& c) : cfg(c), budget(c.dev) { R = this; }
    int dev(int n) { if (budget <= 0) return 0; int k = mc::choose(n); if (k) budget--; return k; }
    // life of the library's objects
    int contexts = 0, dirs = 0, fmus = 0, dlls = 0, instances = 0, lists = 0, terminated = 0, made = 0;
    std::string dir, late;
    fmi2_import_t* f = nullptr;
    bool rolled = false;
    double now = 0, tol = 2e-5;
    std::vector<double> c{2.3, 3.1};
    std::vector<int> given;
    enum { NONE, OUT, STATE } phase = NONE;
    int transitions = 0, outputs = 0;
    double at(int i, double t) const { return f->x0[i] + f->rate[i] * (t - f->t0); }
    double crossing(int k) const {
        double z = f->x0[0] - c[k]; double d = -z / f->rate[0];
        return d > 0 ? f->t0 + d : INF;
    }
    double crossing() const { double t = INF; for (int k = 0; k < f->M; k++) t = std::min(t, crossing(k)); return t; }
    void on(const char* who) {  // the FMU is at a point of its trajectory
        mc::compared();
        for (int i = 0; i < f->N && !cfg.nonlinear; i++)
            if (fabs(f->x[i] - at(i, f->t)) > 1e-7) BAD("%s at FMU time %.17g: state %d is %.17g, the trajectory is at %.17g", who, f->t, i, f->x[i], at(i, f->t));
    }
    void need(bool ok, const char* who) { mc::step(); if (!ok) BAD("%s called in %s mode", who, modes[f->mode]); }
    void run();
    void construct();
    void jacobian();
};
static void lneed(bool ok, const char* who) { if (!ok) LATE("%s called in %s mode", who, modes[R->f->mode]); }
static fmi2_import_t* F(fmi2_import_t* f) { if (!f || f != R->f) BAD("a call with an FMU that does not exist"); return f; }

void jm_default_logger(jm_callbacks*, jm_string, jm_log_level_enu_t, jm_string) {}
// The library allocates and reports through the functions it is given (or its own, if given none)
static void usable(jm_callbacks* cb) {
    if (!cb) return;
    void* a = cb->malloc(8); void* b = cb->calloc(3, 5);
    if (!a || !b) BAD("the callbacks do not allocate");
    for (int i = 0; i < 15; i++) if (((char*)b)[i]) BAD("calloc of the callbacks does not clear");
    memset(a, 7, 8); a = cb->realloc(a, 40);
    for (int i = 0; i < 8; i++) if (((char*)a)[i] != 7) BAD("realloc of the callbacks does not keep");
    cb->free(a); cb->free(b);
    if (cb->log_level < jm_log_level_nothing || cb->log_level > jm_log_level_all) BAD("log level %d", cb->log_level);
    if (cb->logger) cb->logger(cb, "mock", jm_log_level_verbose, "using the callbacks");
}
char* fmi_import_mk_temp_dir(jm_callbacks* cb, const char*, const char*) {
    usable(cb); R->dirs++; R->made++; R->dir = "/nonexistent/tmp-fmu";
    char* d = (char*)(cb ? cb->malloc(R->dir.size() + 1) : malloc(R->dir.size() + 1)); strcpy(d, R->dir.c_str()); return d; }
jm_status_enu_t fmi_import_rmdir(jm_callbacks*, const char* d) { if (R->dirs != 1 || R->dir != d) BAD("removing the directory %s", d); R->dirs--; return jm_status_success; }
fmi_import_context_t* fmi_import_allocate_context(jm_callbacks* cb) { usable(cb); R->contexts++; return new fmi_import_context_t; }
void fmi_import_free_context(fmi_import_context_t* c) { if (R->contexts != 1) BAD("the context is freed twice"); R->contexts--; delete c; }
fmi_version_enu_t fmi_import_get_fmi_version(fmi_import_context_t*, const char*, const char* d) { if (R->dir != d || R->contexts != 1) BAD("unpacking to %s", d); return (fmi_version_enu_t)R->cfg.version; }
fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t*, const char* d, fmi2_xml_callbacks_t*) {
    if (R->dir != d || R->contexts != 1 || R->dirs != 1) BAD("parsing %s", d);
    if (!R->cfg.parses) return nullptr;
    R->fmus++;
    return R->f = new fmi2_import_t(R->cfg.N, R->cfg.M);
}
void fmi2_import_free(fmi2_import_t* f) {  if (R->fmus != 1 || R->dlls || R->instances || R->lists) LATE("the FMU is freed while something of it is in use"); R->fmus--; R->f = nullptr; delete f; }
fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t* f) { F(f); return (fmi2_fmu_kind_enu_t)R->cfg.kind; }
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t* f, fmi2_fmu_kind_enu_t k, const fmi2_callback_functions_t*) {
    F(f); R->need(f->mode == Parsed, "create_dllfmu"); if (k != fmi2_fmu_kind_me) BAD("loaded as kind %d", k); f->mode = Loaded; R->dlls++; return jm_status_success; }
void fmi2_import_destroy_dllfmu(fmi2_import_t* f) {  if (R->dlls != 1 || R->instances) LATE("the library is unloaded twice or with an instance in it"); R->dlls--; }
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t* f, fmi2_string_t, fmi2_type_t t, fmi2_string_t, fmi2_boolean_t) {
    F(f); R->need(f->mode == Loaded, "instantiate"); if (t != fmi2_model_exchange) BAD("instantiated as type %d", t); f->mode = Instantiated; R->instances++; return jm_status_success; }
void fmi2_import_free_instance(fmi2_import_t* f) {  if (R->instances != 1 || R->dlls != 1) LATE("the instance is freed twice"); R->instances--; }
size_t fmi2_import_get_number_of_continuous_states(fmi2_import_t* f) { return F(f)->N; }
size_t fmi2_import_get_number_of_event_indicators(fmi2_import_t* f) { return F(f)->M; }
// value references of different types overlap; references of states and derivatives as OpenModelica assigns them
fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t* f, int) {
    F(f); R->lists++;
    auto* l = new fmi2_import_variable_list_t;
    unsigned n = f->N;
    static const char* xs[] = {"x0", "x1", "x2", "x3"}; static const char* ds[] = {"der(x0)", "der(x1)", "der(x2)", "der(x3)"};
    l->v.push_back({{"k", 0, fmi2_base_type_int}});
    for (unsigned i = 0; i < n; i++) l->v.push_back({{xs[i], i, fmi2_base_type_real}});
    l->v.push_back({{"b", 0, fmi2_base_type_bool}});
    for (unsigned i = 0; i < n; i++) l->v.push_back({{ds[i], n + i, fmi2_base_type_real}});
    l->v.push_back({{"rate", 2 * n, fmi2_base_type_real}});
    l->v.push_back({{"s", 1, fmi2_base_type_str}});
    l->v.push_back({{"par", 2 * n + 1, fmi2_base_type_real}});
    l->v.push_back({{"e", 1, fmi2_base_type_enum}});
    return l;
}
size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t* l) { return l->v.size(); }
void fmi2_import_free_variable_list(fmi2_import_variable_list_t* l) { if (R->lists != 1) BAD("the variable list is freed twice"); R->lists--; l->v.clear(); delete l; }
fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t* l, size_t i) { if (i >= l->v.size()) BAD("variable %zu", i); return &l->v[i]; }
const char* fmi2_import_get_variable_name(fmi2_import_variable_t* v) { return v->v.name; }
fmi2_value_reference_t fmi2_import_get_variable_vr(fmi2_import_variable_t* v) { return v->v.vr; }
fmi2_base_type_enu_t fmi2_import_get_variable_base_type(fmi2_import_variable_t* v) { return v->v.type; }
fmi2_status_t fmi2_import_set_debug_logging(fmi2_import_t* f, fmi2_boolean_t, size_t, fmi2_string_t*) { F(f); R->need(f->mode >= Instantiated, "set_debug_logging"); return fmi2_status_ok; }
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t* f, fmi2_boolean_t td, fmi2_real_t tol, fmi2_real_t t0, fmi2_boolean_t stop, fmi2_real_t) {
    F(f); R->need(f->mode == Instantiated, "setup_experiment");
    if (!td || tol != 1e-6 || t0 != 0 || stop) BAD("experiment with tolerance %d %g from %g stop %d", td, tol, t0, stop);
    R->terminated = 0; f->tset = true; return fmi2_status_ok; }
unsigned fmi2_import_get_capability(fmi2_import_t* f, fmi2_capabilities_enu_t id) { F(f); return id == fmi2_me_providesDirectionalDerivatives ? R->cfg.jac : 0; }
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t* f) { F(f); R->need(f->mode == Instantiated, "enter_initialization_mode"); if (!f->tset) BAD("no experiment was set up"); f->mode = Init; return fmi2_status_ok; }
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t* f) { F(f); R->need(f->mode == Init, "exit_initialization_mode"); f->mode = Event; f->needed = true; return fmi2_status_ok; }
fmi2_status_t fmi2_import_enter_event_mode(fmi2_import_t* f) {
    F(f); R->need(f->mode == Cont, "enter_event_mode"); R->on("an event");
    mc::compared();
    if (fabs(f->t - R->now) > 1e-7) BAD("event mode is entered at FMU time %.17g, the time is %.17g", f->t, R->now);
    if (f->t > f->tdone + 1e-12) BAD("event mode is entered at %.17g, but the step to there was not completed", f->t);
    if (R->given.empty() && !f->request && f->t < f->next - 1e-9 && f->t < R->crossing() - R->tol)
        BAD("event mode is entered at %.17g without reason: next event at %g, next crossing at %g", f->t, f->next, R->crossing());
    mc::count("events");
    f->mode = Event; f->needed = true; f->request = false;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_new_discrete_states(fmi2_import_t* f, fmi2_event_info_t* e) {
    F(f); R->need(f->mode == Event, "new_discrete_states");
    if (f->t >= f->next - 1e-9) f->next = INF;
    e->newDiscreteStatesNeeded = e->terminateSimulation = e->nominalsOfContinuousStatesChanged = e->valuesOfContinuousStatesChanged = false;
    bool moved = false;
    int k = R->cfg.nonlinear ? 0 : R->dev(9);
    mc::trace("  discrete states at %g: %d", f->t, k);
    f->needed = false;
    if (k == 1 || k == 7) {  // ask again; the rest of the answer is not final
        e->newDiscreteStatesNeeded = true; e->nextEventTimeDefined = k == 7; e->nextEventTime = f->t + 0.0625;
        f->x[0] += 0.5; f->needed = true;
        return fmi2_status_ok;
    }
    if (k == 2) { f->x[0] += 1; moved = true; }
    if (k == 3) f->rate[0] = -f->rate[0];
    if (k == 4) f->next = f->t + 0.5;
    if (k == 5) f->next = f->t + 1.25;
    if (k == 6) f->next = INF;
    if (k == 8) f->next = f->t;
    // away from the event surfaces
    for (int k = 0; k < f->M; k++) if (fabs(f->x[0] - R->c[k]) < 1e-3) { f->x[0] = R->c[k] + (f->rate[0] > 0 ? 0.25 : -0.25); moved = true; }
    e->valuesOfContinuousStatesChanged = moved;
    e->nextEventTimeDefined = f->next < INF;
    e->nextEventTime = f->next < INF ? f->next : -99;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_enter_continuous_time_mode(fmi2_import_t* f) {
    F(f); R->need(f->mode == Event, "enter_continuous_time_mode");
    if (f->needed) BAD("continuous time mode is entered at %g while discrete states still have to be updated", f->t);
    f->mode = Cont; f->t0 = f->tdone = f->t;
    for (int i = 0; i < 4; i++) f->x0[i] = f->x[i];
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_set_time(fmi2_import_t* f, fmi2_real_t t) {
    F(f); R->need(f->mode == Cont || f->mode == Event || f->mode == Instantiated, "set_time");
    mc::compared();
    if (f->mode == Event && fabs(t - f->t) > 1e-12) BAD("the time is changed from %g to %g in event mode", f->t, t);
    if (R->cfg.nonlinear) { f->t = t; return fmi2_status_ok; }
    // known: output was computed at the end of the step, then the next time was set earlier
    if (R->rolled && t < f->tdone - 1e-12) mc::finding("C20-rollback", "the FMU is stepped back to %.17g, the step to %.17g was completed", t, f->tdone);
    if (t < f->tdone - 1e-12) BAD("the FMU is stepped back to %.17g, the step to %.17g was completed", t, f->tdone);
    if (t > f->next + 1e-9) BAD("the FMU is moved to %.17g past its next event at %.17g", t, f->next);
    if (f->request && t > f->tdone + 1e-12) BAD("the FMU is moved from %.17g to %.17g although it asked for event mode", f->tdone, t);
    f->t = t;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_set_continuous_states(fmi2_import_t* f, const fmi2_real_t x[], size_t n) {
    F(f); R->need(f->mode == Cont, "set_continuous_states");
    if (n != (size_t)f->N) BAD("%zu states are set, there are %d", n, f->N);
    for (int i = 0; i < f->N; i++) f->x[i] = x[i];
    return fmi2_status_ok;
}
static double deriv(fmi2_import_t* f, int i) {
    double* x = f->x;
    switch (R->cfg.nonlinear) {
        case 1: return i == 0 ? 2 * x[0] : 0;
        case 2: return i == 0 ? 3 * x[1] - x[0] : 5 * x[0] + x[1] * x[0];
        case 3: return i == 0 ? x[1] * x[2] : i == 1 ? x[0] - 2 * x[2] + x[1] : x[2] * x[2] + 7 * x[0];
    }
    return f->rate[i];
}
static double partial(fmi2_import_t* f, int i, int j) {
    double* x = f->x;
    switch (R->cfg.nonlinear) {
        case 1: return 2;
        case 2: return i == 0 ? (j == 0 ? -1 : 3) : j == 0 ? 5 + x[1] : x[0];
        case 3: if (i == 0) return j == 0 ? 0 : j == 1 ? x[2] : x[1];
                if (i == 1) return j == 0 ? 1 : j == 1 ? 1 : -2;
                return j == 0 ? 7 : j == 1 ? 0 : 2 * x[2];
    }
    return 0;
}
fmi2_status_t fmi2_import_get_derivatives(fmi2_import_t* f, fmi2_real_t dx[], size_t n) {
    F(f); R->need(f->mode == Cont || f->mode == Event || f->mode == Init, "get_derivatives");
    if (n != (size_t)f->N) BAD("%zu derivatives are read, there are %d", n, f->N);
    if (!R->cfg.nonlinear) R->on("derivatives are read");
    for (int i = 0; i < f->N; i++) dx[i] = deriv(f, i);
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_event_indicators(fmi2_import_t* f, fmi2_real_t z[], size_t n) {
    F(f); R->need(f->mode == Cont || f->mode == Event || f->mode == Init, "get_event_indicators");
    if (n != (size_t)f->M) BAD("%zu event indicators are read, there are %d", n, f->M);
    R->on("event indicators are read");
    for (int i = 0; i < f->M; i++) z[i] = f->x[0] - R->c[i];
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_continuous_states(fmi2_import_t* f, fmi2_real_t x[], size_t n) {
    F(f); R->need(f->mode == Cont || f->mode == Event || f->mode == Init, "get_continuous_states");
    if (n != (size_t)f->N) BAD("%zu states are read, there are %d", n, f->N);
    for (int i = 0; i < f->N; i++) x[i] = f->x[i];
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_nominals_of_continuous_states(fmi2_import_t* f, fmi2_real_t x[], size_t n) { F(f); for (size_t i = 0; i < n; i++) x[i] = 1; return fmi2_status_ok; }
fmi2_status_t fmi2_import_completed_integrator_step(fmi2_import_t* f, fmi2_boolean_t, fmi2_boolean_t* ev, fmi2_boolean_t* term) {
    F(f); R->need(f->mode == Cont, "completed_integrator_step"); R->on("a completed step");
    mc::compared();
    if (f->t <= f->tdone) BAD("a step is completed at %.17g again", f->t);
    if (fabs(f->t - R->now) > 1e-7) BAD("a step to %.17g is completed at %.17g", f->t, R->now);
    if (f->t > R->crossing() + R->tol) BAD("a step to %.17g is completed, an event indicator changed its sign at %.17g", f->t, R->crossing());
    f->tdone = f->t;
    *term = false;
    *ev = R->dev(2);
    f->request = *ev;
    mc::count("steps completed");
    mc::trace("  step to %g completed, event mode %d", f->t, (int)*ev);
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_directional_derivative(fmi2_import_t* f, const fmi2_value_reference_t v[], size_t nv, const fmi2_value_reference_t z[], size_t nz, const fmi2_real_t dv[], fmi2_real_t dz[]) {
    F(f); R->need(f->mode == Cont || f->mode == Event || f->mode == Init, "get_directional_derivative");
    for (size_t a = 0; a < nz; a++) {
        if (z[a] < (unsigned)f->N || z[a] >= 2u * f->N) BAD("directional derivative of variable %u, which is no derivative", z[a]);
        double s = 0;
        for (size_t b = 0; b < nv; b++) {
            if (v[b] >= (unsigned)f->N) BAD("directional derivative with respect to %u, which is no state", v[b]);
            s += partial(f, z[a] - f->N, v[b]) * dv[b];
        }
        dz[a] = s;
    }
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_terminate(fmi2_import_t* f) {
     lneed(f->mode == Cont || f->mode == Event, "terminate");
    f->mode = Terminated; R->terminated++; return fmi2_status_ok; }
fmi2_status_t fmi2_import_reset(fmi2_import_t* f) { F(f); BAD("the FMU is reset"); return fmi2_status_ok; }
static bool readable(fmi2_import_t* f) { return f->mode == Init || f->mode == Event || f->mode == Cont || f->mode == Terminated; }
fmi2_status_t fmi2_import_get_real(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, fmi2_real_t v[]) {
    F(f); R->need(readable(f), "get_real");
    for (size_t i = 0; i < n; i++) {
        if (vr[i] < (unsigned)f->N) v[i] = f->x[vr[i]];
        else if (vr[i] < 2u * f->N) v[i] = deriv(f, vr[i] - f->N);
        else if (vr[i] == 2u * f->N) v[i] = f->rate[0];
        else if (vr[i] == 2u * f->N + 1) v[i] = f->par;
        else BAD("real variable %u does not exist", vr[i]);
    }
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_integer(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, fmi2_integer_t v[]) {
    F(f); R->need(readable(f), "get_integer"); for (size_t i = 0; i < n; i++) { if (vr[i] > 1) BAD("integer variable %u", vr[i]); v[i] = vr[i] ? f->enu : f->k; } return fmi2_status_ok; }
fmi2_status_t fmi2_import_get_boolean(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, fmi2_boolean_t v[]) {
    F(f); R->need(readable(f), "get_boolean"); for (size_t i = 0; i < n; i++) { if (vr[i] > 0) BAD("boolean variable %u", vr[i]); v[i] = f->b; } return fmi2_status_ok; }
fmi2_status_t fmi2_import_get_string(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, fmi2_string_t v[]) {
    F(f); R->need(readable(f), "get_string"); for (size_t i = 0; i < n; i++) { if (vr[i] != 1) BAD("string variable %u", vr[i]); v[i] = f->str.c_str(); } return fmi2_status_ok; }
static bool writable(fmi2_import_t* f) { return f->mode == Init || f->mode == Event || f->mode == Instantiated; }
fmi2_status_t fmi2_import_set_real(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, const fmi2_real_t v[]) {
    F(f); R->need(writable(f), "set_real"); f->needed = true;
    for (size_t i = 0; i < n; i++) {
        if (vr[i] < (unsigned)f->N) f->x[vr[i]] = v[i];
        else if (vr[i] == 2u * f->N) f->rate[0] = v[i];
        else if (vr[i] == 2u * f->N + 1) f->par = v[i];
        else BAD("real variable %u cannot be set", vr[i]);
    }
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_set_integer(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, const fmi2_integer_t v[]) {
    F(f); R->need(writable(f), "set_integer"); f->needed = true; for (size_t i = 0; i < n; i++) { if (vr[i] > 1) BAD("integer variable %u", vr[i]); (vr[i] ? f->enu : f->k) = v[i]; } return fmi2_status_ok; }
fmi2_status_t fmi2_import_set_boolean(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, const fmi2_boolean_t v[]) {
    F(f); R->need(writable(f), "set_boolean"); f->needed = true; for (size_t i = 0; i < n; i++) { if (vr[i] > 0) BAD("boolean variable %u", vr[i]); f->b = v[i]; } return fmi2_status_ok; }
fmi2_status_t fmi2_import_set_string(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, const fmi2_string_t v[]) {
    F(f); R->need(writable(f), "set_string"); f->needed = true; for (size_t i = 0; i < n; i++) { if (vr[i] != 1) BAD("string variable %u", vr[i]); f->str = v[i]; } return fmi2_status_ok; }

struct Model : adevs::ModelExchange<int> {
    using Base = adevs::ModelExchange<int>;
    Rig& r; adevs::pin_t in, out;
    bool due = false;
    Model(Rig& r) : Base("mock.fmu", 1e-6), r(r) {}
    void agree(double const* q, const char* who) {
        mc::compared();
        for (int i = 0; i < r.f->N; i++) if (q[i] != r.f->x[i]) BAD("%s at %g: the model's state %d is %g, the FMU's %g", who, r.now, i, q[i], r.f->x[i]);
        if (q[r.f->N] != r.f->t) BAD("%s: the model's time is %.17g, the FMU's %.17g", who, q[r.f->N], r.f->t);
        if (fabs(r.f->t - r.now) > 1e-7) BAD("%s: the FMU's time is %.17g, the time is %.17g", who, r.f->t, r.now);
        if (fabs(get_time() - r.now) > 1e-7) BAD("%s: get_time() is %.17g, the time is %.17g", who, get_time(), r.now);
    }
    void variables() {
        mc::compared();
        fmi2_import_t* f = r.f;
        try {
        if (std::any_cast<double>(get_variable("x0")) != f->x[0]) BAD("x0 is read wrong");
        if (f->N > 1 && std::any_cast<double>(get_variable("x1")) != f->x[1]) BAD("x1 is read wrong");
        if (std::any_cast<double>(get_variable("rate")) != f->rate[0]) BAD("rate is read wrong");
        if (std::any_cast<double>(get_variable("par")) != f->par) BAD("par is read wrong");
        if (std::any_cast<int>(get_variable("k")) != f->k) BAD("k is read wrong");
        if ((bool)std::any_cast<int>(get_variable("b")) != f->b) BAD("b is read wrong");
        if (std::any_cast<int>(get_variable("e")) != f->enu) BAD("e is read wrong");
        if (std::any_cast<std::string>(get_variable("s")) != f->str) BAD("s is read wrong");
        } catch (std::bad_any_cast&) { BAD("a variable has the wrong type"); }
        bool ok = false;
        try { get_variable("no such"); } catch (adevs::exception&) { ok = true; }
        if (!ok) BAD("reading a variable that does not exist gives a value");
    }
    bool change() {
        fmi2_import_t* f = r.f;
        int k = r.dev(7), ki = f->k, ei = f->enu; double ra = f->rate[0], pa = f->par; bool b = f->b; std::string s = f->str;
        try {
        switch (k) {
            case 1: set_variable("rate", ra = -ra); break;
            case 2: set_variable("par", pa = pa + 1); break;
            case 3: set_variable("k", ki = ki + 1); break;
            case 4: set_variable("b", (int)(b = !b)); break;
            case 5: set_variable("e", ei = ei + 1); break;
            case 6: set_variable("s", s = s + "z"); break;
        } } catch (std::bad_any_cast&) { BAD("a variable is set with the wrong type"); }
        if (f->rate[0] != ra || f->par != pa || f->k != ki || f->b != b || f->enu != ei || f->str != s) BAD("a variable was not set");
        if (k) mc::count("variables set");
        return k > 0;
    }
    // A transition of ModelExchange may be implemented by means of another one
    int nested = 0;
    struct In { int& n; In(int& n) : n(n) { n++; } ~In() { n--; } };
    void after(double* q, const char* who) { agree(q, who); r.transitions++; }
    void internal_event(double* q, bool const* ev) override {
        if (nested) { Base::internal_event(q, ev); return; }
        In guard(nested);
        if (r.phase != Rig::STATE) BAD("internal event out of order");
        Base::internal_event(q, ev); agree(q, "after an internal event"); variables();
        if (change()) Base::internal_event(q, ev);
        after(q, "after an internal event");
    }
    void external_event(double* q, double e, Xb const& xb) override {
        if (nested) { Base::external_event(q, e, xb); return; }
        In guard(nested);
        if (r.phase != Rig::STATE) BAD("external event out of order");
        Base::external_event(q, e, xb); agree(q, "after an external event"); variables();
        if (change()) Base::external_event(q, e, xb);
        after(q, "after an external event");
    }
    void confluent_event(double* q, bool const* ev, Xb const& xb) override {
        if (nested) { Base::confluent_event(q, ev, xb); return; }
        In guard(nested);
        if (r.phase != Rig::STATE) BAD("confluent event out of order");
        Base::confluent_event(q, ev, xb); agree(q, "after a confluent event"); variables();
        if (change()) Base::confluent_event(q, ev, xb);
        after(q, "after a confluent event");
    }
    void output_func(double const* q, bool const* ev, Xb& yb) override {
        if (r.phase != Rig::OUT) BAD("output out of order");
        agree(q, "at the output"); r.on("output"); variables();
        r.outputs++;
    }
};
static std::vector<std::unique_ptr<Model>> keep;
static adevs::ode_solver<int>* solver(Cfg const& c, adevs::ode_system<int>* s) {
    if (c.solver == 1) return new adevs::rk_45<int>(s, 1e-6, c.h_max);
    if (c.solver == 2) return new adevs::trap<int>(s, 1e-9, c.h_max);
    return new adevs::corrected_euler<int>(s, 1e-6, c.h_max);
}
static adevs::event_locator<int>* locator(Cfg const& c, adevs::ode_system<int>* s) {
    switch (c.locator) {
        case 1: return new adevs::linear_event_locator<int>(s, 1e-7);
        case 2: return new adevs::discontinuous_event_locator<int>(s, 1e-7);
        case 3: return new adevs::fast_event_locator<int>(s, 1e-7);
        case 4: return new adevs::null_event_locator<int>();
    }
    return new adevs::bisection_event_locator<int>(s, 1e-7);
}
void Rig::run() {
    {
        auto* m = new Model(*this);
        adevs::pin_t in = m->in;
        auto h = std::make_shared<adevs::Hybrid<int>>(m, solver(cfg, m), locator(cfg, m));
        auto g = std::make_shared<adevs::Graph<int>>();
        g->add_atomic(h); g->connect(in, h);
        adevs::Simulator<int> sim(g);
        int inputs = 0;
        double atmodel = 0;  // time of the model's last transition
        for (int c = 0; c < cfg.cycles; c++) {
            mc::compared();
            // between events
            if (f->mode != Cont && f->mode != Event) BAD("the FMU is in %s mode", modes[f->mode]);
            if (f->mode == Cont && fabs(f->t - atmodel) > 1e-7) BAD("between events the FMU is at %.17g, the model at %.17g", f->t, atmodel);
            for (int i = 0; i < f->N; i++) {
                if (h->getState(i) != f->x[i]) BAD("between events the model's state %d is %.17g, the FMU's %.17g", i, h->getState(i), f->x[i]);
                if (fabs(at(i, atmodel) - f->x[i]) > 1e-7) BAD("at %g state %d is %.17g, the trajectory is at %.17g", atmodel, i, f->x[i], at(i, atmodel));
            }
            if (fabs(h->getState(f->N) - atmodel) > 1e-7 || fabs(m->get_time() - atmodel) > 1e-7) BAD("the model's time is %.17g and get_time() %.17g at %.17g", h->getState(f->N), m->get_time(), atmodel);
            double tn = sim.nextEventTime();
            double bound = std::min(f->next, crossing() + tol);
            if (f->request) bound = f->tdone;
            if (tn > bound + 1e-9) BAD("the next event is at %.17g, the FMU's at %.17g (next event time %g, crossing %g, request %d)", tn, bound, f->next, crossing(), f->request);
            if (tn < atmodel) BAD("the next event is at %.17g before %.17g", tn, atmodel);
            given.clear();
            int k = inputs < cfg.inputs ? dev(5) : 0;
            double t = tn;
            if (k == 2) t = std::min(tn, now + 0.125);
            if (k == 3) t = now;
            if (k == 4) t = std::min(tn, now + 0.75);
            bool roll = cfg.rolls && k && t < tn - 1e-6 && dev(2);
            if (roll) {
                now = tn; phase = OUT;
                double done = f->tdone;
                sim.computeNextOutput();
                rolled = f->tdone > done;
            }
            if (t < tn) sim.setNextTime(t);
            now = t;
            if (k) { inputs++; given.push_back(c); PV x(in, c); sim.injectInput(x); }
            mc::trace("cycle at %g input %d", now, k);
            int tr = transitions, ou = outputs; (void)ou;
            phase = OUT; sim.computeNextOutput();
            phase = STATE; sim.computeNextState();
            phase = NONE;
            if (k && transitions != tr + 1) BAD("input at %g and %d events of the model", now, transitions - tr);
            if (transitions > tr || t == tn) atmodel = now;
            mc::state(mc::mix(mc::hash_str(std::to_string(f->t) + "/" + std::to_string(f->x[0]) + "/" + std::to_string(f->rate[0]) + "/" + std::to_string(f->next)), (uint64_t)f->request * 2 + (k > 0)));
        }
        given.clear();
    }
    mc::compared();
    if (!late.empty()) mc::fail("%s", late.c_str());
    if (terminated != 1) mc::fail("the FMU was terminated %d times", terminated);
    if (instances || dlls || fmus || contexts || dirs || lists) mc::fail("left behind: %d instances, %d libraries, %d FMUs, %d contexts, %d directories, %d lists", instances, dlls, fmus, contexts, dirs, lists);
    if (made != 1) mc::fail("%d directories were made", made);
}
// FMUs that are not accepted, or never started
void Rig::construct() {
    int k = mc::choose(3);
    for (int turn = 0; turn < 3; turn++) {
    size_t before = __sanitizer_get_current_allocated_bytes();
    bool good = cfg.version == fmi_version_2_0_enu && cfg.kind != fmi2_fmu_kind_cs && cfg.parses, thrown = false;
    terminated = 0;
    try {
        auto m = std::make_unique<Model>(*this);
        if (k == 1) { try { m->set_variable("k", 12); m->set_variable("par", 1.25); } catch (std::bad_any_cast&) { mc::fail("a variable is set with the wrong type"); } if (f->k != 12 || f->par != 1.25) mc::fail("a start value was not set"); }
        if (k == 2) { double q[5]; m->init(q); mc::compared(); for (int i = 0; i < f->N; i++) if (q[i] != f->x[i]) mc::fail("the initial state %d is %g, the FMU's %g", i, q[i], f->x[i]); if (q[f->N] != 0) mc::fail("the initial time is %g", q[f->N]); }
        m.reset();
        if (!late.empty()) mc::fail("%s", late.c_str());
        if (terminated != (k == 2)) mc::fail("the FMU was terminated %d times", terminated);
    } catch (adevs::exception&) { thrown = true; }
    mc::compared();
    if (thrown == good) mc::fail(thrown ? "a good FMU is rejected" : "an FMU that cannot be used is accepted");
    if (instances || dlls || fmus || contexts || dirs || lists) mc::fail("left behind: %d instances, %d libraries, %d FMUs, %d contexts, %d directories, %d lists", instances, dlls, fmus, contexts, dirs, lists);
    // the first turn allocates what this scenario keeps
    size_t left = __sanitizer_get_current_allocated_bytes() - before;
    if (turn && left) mc::fail("%zu bytes of memory are left behind", left);
    }
}
void Rig::jacobian() {
    static const double grid[] = {-2, 0.5, 3};
    auto m = std::make_unique<Model>(*this);
    double q[5], dq[5], J[25], e[5], e2[5];
    int n = cfg.N + 1;
    m->init(q);
    mc::compared();
    if (m->get_jacobian(q, nullptr) != cfg.jac) mc::fail("get_jacobian says %d", !cfg.jac);
    for (int i = 0; i < n; i++) q[i] = mc::pick(std::vector<double>(grid, grid + 3));
    q[cfg.N] += 3;
    if (mc::flip()) { given.push_back(1); m->Model::Base::internal_event(e, nullptr); }   // in event mode
    for (auto& j : J) j = -77;
    bool got = m->get_jacobian(q, J);
    if (got != cfg.jac) mc::fail("get_jacobian returns %d", got);
    if (cfg.jac && (f->mode != Cont)) mc::fail("the Jacobian leaves the FMU in %s mode", modes[f->mode]);
    mc::count("jacobians");
    if (got && f->t != q[cfg.N]) mc::fail("the Jacobian is computed at time %g, the state given is that of %g", f->t, q[cfg.N]);
    for (int i = 0; i < cfg.N && got; i++) if (f->x[i] != q[i]) mc::fail("the Jacobian is computed with state %d = %g, given is %g", i, f->x[i], q[i]);
    // the reported derivatives are quadratic, so that central differences are exact
    for (int j = 0; j < n; j++) {
        double s = q[j];
        q[j] = s + 0.5; m->der_func(q, e); q[j] = s - 0.5; m->der_func(q, e2); q[j] = s;
        for (int i = 0; i < n && got; i++) {
            mc::compared();
            if (i == n - 1 && j == n - 1) continue;
            if (J[j * n + i] != e[i] - e2[i]) mc::fail("N=%d: the partial derivative of derivative %d with respect to %d is %g, reported %g", cfg.N, i, j, e[i] - e2[i], J[j * n + i]);
        }
    }
    for (int i = n * n; i < 25; i++) if (J[i] != -77) mc::fail("get_jacobian writes beyond its matrix");
    m->der_func(q, dq);
    if (dq[cfg.N] != 1) mc::fail("the derivative of the time is %g", dq[cfg.N]);
    m.reset();
    mc::state(mc::hash_str(std::to_string(q[0]) + "," + std::to_string(q[1]) + "," + std::to_string(cfg.nonlinear)));
    if (got && J[n * n - 1] != 0) {
        if (J[n * n - 1] == 1) mc::finding("C20-jacobian-time", "the partial derivative of the derivative of time with respect to time is 0, reported 1");
        mc::fail("the partial derivative of the derivative of time with respect to time is 0, reported %g", J[n * n - 1]);
    }
}
int main(int argc, char** argv) {
    return mc::main_(argc, argv, "C20", [](std::vector<mc::Scenario>& s, bool th) {
        auto put = [&](std::string n, Cfg c, void (Rig::*fn)()) { s.push_back({n, [c, fn] { Rig r(c); (r.*fn)(); }}); };
        static const char* sol[] = {"corrected_euler", "rk_45", "trap"};
        static const char* loc[] = {"bisection", "linear", "discontinuous", "fast", "null"};
        Cfg c;
        for (int so = 0; so < 3; so++) for (int l = 0; l < 5; l++) for (int hm = so == 2; hm < 2; hm++) {
            c = Cfg(); c.solver = so; c.locator = l; c.h_max = hm ? 0.5 : 4; c.M = l == 4 ? 0 : 1 + hm; c.N = 1 + hm; c.dev = th ? 4 : 3;
            put(std::string("run/") + sol[so] + "/" + loc[l] + (hm ? "/short steps" : "/long steps"), c, &Rig::run);
        }
        c = Cfg(); c.rolls = true; put("output before an earlier input", c, &Rig::run);
        c = Cfg(); c.M = 0; put("no indicators", c, &Rig::run);
        c = Cfg(); put("construct", c, &Rig::construct);
        c.kind = fmi2_fmu_kind_me_and_cs; put("construct/both kinds", c, &Rig::construct);
        c.kind = fmi2_fmu_kind_cs; put("construct/co-simulation", c, &Rig::construct);
        for (int n = 1; n <= 2; n++) { c = Cfg(); c.N = n; c.jac = n == 2; put("construct/derivatives/" + std::to_string(n), c, &Rig::construct); }
        c = Cfg(); c.version = fmi_version_1_enu; put("construct/version 1", c, &Rig::construct);
        c = Cfg(); c.version = fmi_version_3_0_enu; put("construct/version 3", c, &Rig::construct);
        c = Cfg(); c.parses = false; put("construct/no xml", c, &Rig::construct);
        for (int n = 1; n <= 3; n++) for (int j = 0; j < 2; j++) {
            c = Cfg(); c.N = n; c.nonlinear = n; c.jac = j; c.M = 0;
            put("jacobian/" + std::to_string(n) + (j ? "" : "/not supported"), c, &Rig::jacobian);
        }
    });
}
