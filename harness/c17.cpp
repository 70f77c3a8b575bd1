// C17: every event locator on every piecewise linear (or piecewise constant)
// choice of state event functions over a grid, and the spline on every small cubic.
#include "simlab.h"
#include <adevs/solvers/corrected_euler.h>
#include <adevs/solvers/event_locators.h>
#include <adevs/solvers/rk_45.h>
#include <cmath>

enum Kind { LINEAR, BISECT, DISC, FAST, SPLINE, NKIND };
static const char* kname[] = {"linear", "bisection", "discontinuous", "fast", "fast with spline"};
struct Cfg { Kind kind; int solver = 0; std::vector<int> values; int nodes = 3, M = 1; std::vector<double> hs, tols, scales; bool steps = false; };
// z_k(t) by its values at equally spaced nodes over [0,T]
struct Fn {
    std::vector<double> v; double T; bool step, left;
    double at(double t) const {
        int n = v.size() - 1; double u = t / T * n;
        if (u <= 0) return v[0]; if (u >= n) return v[n];
        if (step) { double f = floor(u); int i = (int)f; if (left && u == f) return v[i ? i - 1 : 0]; return v[i]; }
        int i = (int)u; double f = u - i;
        return v[i] == v[i + 1] ? v[i] : v[i] * (1 - f) + v[i + 1] * f;
    }
};
struct Sys : adevs::ode_system<int> {
    std::vector<Fn> f; std::vector<std::pair<double, bool>> log; std::function<bool(double)> pred;
    unsigned long calls = 0; double limit = 0; bool wild = false;
    Sys(int m) : adevs::ode_system<int>(3, m) {}
    void init(double* q) override { q[0] = 0; q[1] = 1; q[2] = 0; }
    void der_func(double const* q, double* dq) override { if (++calls > 40000000) mc::fail("the search does not end"); dq[0] = 1; dq[1] = 2 * q[0]; dq[2] = 4 * q[0] * q[0] * q[0]; }
    void state_event_func(double const* q, double* z) override {
        if (++calls > 200000) mc::fail("the search does not end");
        if (!(q[0] >= 0 && q[0] <= limit * (1 + 1e-9))) wild = true;
        for (size_t k = 0; k < f.size(); k++) z[k] = f[k].at(q[0]);
        if (pred) log.push_back({q[0], pred(q[0])});
    }
    double time_event_func(double const*) override { return adevs_inf<double>(); }
    void internal_event(double*, bool const*) override {}
    void external_event(double*, double, std::list<adevs::PinValue<int>> const&) override {}
    void confluent_event(double*, bool const*, std::list<adevs::PinValue<int>> const&) override {}
    void output_func(double const*, bool const*, std::list<adevs::PinValue<int>>&) override {}
};
struct Exact : adevs::ode_solver<int> {
    Exact(Sys* s) : adevs::ode_solver<int>(s) {}
    double integrate(double* q, double h) override { advance(q, h); return h; }
    void advance(double* q, double h) override { if (!(h >= 0)) mc::fail("asked for the solution %g ahead", h); q[0] += h; q[1] = 1 + q[0] * q[0]; q[2] = q[0] * q[0] * q[0] * q[0]; double d[3]; sys->der_func(q, d); }
};
static int sgn(double x) { return x < 0 ? -1 : x > 0; }
static void run(Cfg const& c) {
    Sys s(c.M);
    double T = mc::pick(c.hs), tol = mc::pick(c.tols), sc = mc::pick(c.scales);
    bool left = c.steps && mc::flip();
    for (int k = 0; k < c.M; k++) {
        Fn f; f.T = T; f.step = c.steps; f.left = left;
        for (int i = 0; i <= c.nodes; i++) f.v.push_back(sc * mc::pick(c.values));
        s.f.push_back(f);
    }
    auto changed = [&](int k, double t) { double a = s.f[k].v[0], b = s.f[k].at(t); return c.kind >= FAST ? a * b <= 0 : sgn(a) != sgn(b); };
    auto any = [&](double t) { for (int k = 0; k < c.M; k++) if (changed(k, t)) return true; return false; };
    s.pred = any; s.limit = T;
    adevs::ode_solver<int>* so = c.solver == 0 ? (adevs::ode_solver<int>*)new Exact(&s) : c.solver == 1 ? (adevs::ode_solver<int>*)new adevs::corrected_euler<int>(&s, 1e-3 * T, T / 2.5) : (adevs::ode_solver<int>*)new adevs::rk_45<int>(&s, 1e-3 * T, T / 2.5);
    std::unique_ptr<adevs::ode_solver<int>> hold(so);
    std::unique_ptr<adevs::event_locator<int>> lo;
    switch (c.kind) {
        case LINEAR: lo.reset(new adevs::linear_event_locator<int>(&s, tol)); break;
        case BISECT: lo.reset(new adevs::bisection_event_locator<int>(&s, tol)); break;
        case DISC: lo.reset(new adevs::discontinuous_event_locator<int>(&s, tol)); break;
        case FAST: lo.reset(new adevs::fast_event_locator<int>(&s, tol)); break;   // does not interpolate unless asked to
        default: lo.reset(new adevs::fast_event_locator<int>(&s, tol, true));
    }
    double slack = c.solver || c.kind == SPLINE ? 1e-9 * T : 2.3e-16 * T;
    for (int round = 0; round < 2; round++) {       // a locator has no memory
        double q0[3] = {0, 1, 0}, q[3] = {T, 1 + T * T, T * T * T * T}; bool ev[8]; for (bool& b : ev) b = true;
        double h = T; s.log.clear(); s.calls = 0; s.wild = false;
        bool found = lo->find_events(ev, q0, q, so, h);
        mc::step(); mc::compared();
        mc::state(mc::mix(mc::hash_str(std::to_string(h / T)), found + 2 * c.kind));
        mc::trace("%s: T=%.17g tol=%g -> %d at %.17g", kname[c.kind], T, tol, found, h);
        auto bad = [&](const char* m) {
            std::string d; for (auto& f : s.f) { d += "["; for (double v : f.v) d += std::to_string(v / sc) + " "; d += "]"; }
            mc::fail("%s locator, h=%.17g tol=%g scale %g, z=%s: %s (found %d at %.17g, state %.17g)", kname[c.kind], T, tol, sc, d.c_str(), m, found, h, q[0]);
        };
        if (q0[0] != 0 || q0[1] != 1 || q0[2] != 0) bad("the start state was changed");
        if (s.wild) bad("a state outside of the interval was used");
        if (!(h >= 0 && h <= T)) bad("the time is outside of the interval");
        if (fabs(q[0] - h) > slack || fabs(q[1] - (1 + h * h)) > 4 * slack * (1 + T) + 1e-15) bad("the state returned is not that of the time returned");
        // t^4 tells the solution from its cubic interpolation, which is off by t^2 (T-t)^2
        double t4 = h * h * h * h - (c.kind == SPLINE ? h * h * (T - h) * (T - h) : 0), s4 = c.solver ? 0.05 : 1e-12;
        if (fabs(q[2] - t4) > s4 * T * T * T * T) bad(c.kind == SPLINE ? "the state returned is not the interpolated one" : "the state returned is not the solution but some approximation of it");
        if (!any(T)) { if (found || h != T || q[0] != T) bad("there is no event at the end of the step, but it was shortened or an event reported"); for (int k = 0; k < c.M; k++) if (ev[k]) bad("a flag without an event"); }
        // does each function change at most once, and then stay changed?
        bool once = true; double first = T * 2;
        {
            int n = 64 * c.nodes; std::vector<char> p(c.M, 0);
            for (int i = 0; i <= n; i++) for (int k = 0; k < c.M; k++) { bool x = changed(k, T * i / n); if (p[k] && !x) once = false; if (x) p[k] = 1; }
            for (auto& f : s.f) if (f.v[0] == 0) { int u = 0; for (double x : f.v) if (x != 0) { if (u && u != sgn(x)) once = false; u = sgn(x); } }
            if (once) for (int k = 0; k < c.M; k++) if (changed(k, T)) { double a = 0, b = T; for (int i = 0; i < 200; i++) { double m = (a + b) / 2; if (changed(k, m)) b = m; else a = m; } first = std::min(first, b); }
        }
        double zt = 1e-9 * sc;   // rounding of z
        double td = 1e-6 * T;    // crossing times are compared away from rounding of z
        if (found) {
            int n = 0;
            double at = q[0];
            for (int k = 0; k < c.M; k++) {
                bool want = changed(k, at);
                if (ev[k] != want) bad("the flags are not those of the functions that changed sign");
                n += ev[k];
                if (ev[k] && c.kind < DISC && fabs(s.f[k].at(at)) > tol) bad("a flagged function is not within the tolerance");
            }
            if (!n) bad("an event without a flag");
            if (c.kind >= FAST) {
                double best = 0; for (auto& l : s.log) if (!l.second && l.first < h) best = std::max(best, l.first);
                if (h - best > tol + slack && h > 4e-16 * T) bad("the bracket around the event is wider than the tolerance");
                if (once && !(h >= first - td && h <= first + tol + td)) bad("not the first event");
            } else if (c.kind == DISC) { if (h > tol) bad("a discontinuous event farther away than the tolerance"); }
            else if (once && h < first - td) bad("earlier than the event");
            if (c.kind < DISC && once) {     // all that changed by then are within the tolerance: nothing was skipped
                for (int k = 0; k < c.M; k++) if (changed(k, at) && fabs(s.f[k].at(at)) > tol + zt) bad("an event was skipped");
            }
        } else if (any(T)) {
            if (c.kind >= FAST) bad("the event was not reported");
            if (!(h < T) || h <= 0) bad("the step with an event was neither shortened nor reported");
            if (any(q[0])) bad("the shortened step ends beyond the event");
            if (once && h > first + td) bad("the shortened step leads beyond the event");
        }
    }
}
// As Hybrid does, go on where a search stopped short: the first event is reached, soon.
static void chain(Cfg const& c) {
    Sys s(c.M);
    double T = mc::pick(c.hs), tol = mc::pick(c.tols), sc = mc::pick(c.scales);
    for (int k = 0; k < c.M; k++) {
        Fn f; f.T = T; f.step = c.steps; f.left = false;
        for (int i = 0; i <= c.nodes; i++) f.v.push_back(sc * mc::pick(c.values));
        if (f.v[0] == 0) return;
        s.f.push_back(f);
    }
    s.limit = T;
    Exact so(&s);
    std::unique_ptr<adevs::event_locator<int>> lo;
    switch (c.kind) {
        case LINEAR: lo.reset(new adevs::linear_event_locator<int>(&s, tol)); break;
        case BISECT: lo.reset(new adevs::bisection_event_locator<int>(&s, tol)); break;
        case DISC: lo.reset(new adevs::discontinuous_event_locator<int>(&s, tol)); break;
        case FAST: lo.reset(new adevs::fast_event_locator<int>(&s, tol)); break;   // does not interpolate unless asked to
        default: lo.reset(new adevs::fast_event_locator<int>(&s, tol, true));
    }
    double q[3] = {0, 1, 0}; bool ev[8]; int rounds = 0; bool found = false;
    while (!found && q[0] < T * (1 - 1e-12)) {
        double q1[3] = {q[0], q[1], q[2]}, h = T - q[0]; so.advance(q1, h); s.calls = 0;
        found = lo->find_events(ev, q, q1, &so, h); mc::step();
        if (++rounds > 300) mc::fail("%s locator: the event is not reached in %d searches, tol=%g", kname[c.kind], rounds, tol);
        if (h <= 0) mc::fail("%s locator: no progress", kname[c.kind]);
        q[0] = q1[0]; q[1] = q1[1]; q[2] = q1[2];
    }
    mc::compared(); mc::state(mc::mix(rounds, q[0] * 1e6));
    if (c.kind == LINEAR && c.M == 1 && c.nodes == 1 && rounds > 4) mc::fail("linear interpolation of a linear function takes %d searches", rounds);
    bool all = true;   // do all functions keep the sign they changed to?
    double first = 2 * T;
    for (auto& f : s.f) {
        bool ch = false;
        for (size_t i = 1; i < f.v.size(); i++) {
            bool x = f.v[i] * f.v[0] < 0 || f.v[i] == 0; if (ch && (!x || f.v[i] == 0)) all = false;   // it comes back to zero or beyond
            
            if (x && !ch) { ch = true; double w = T / (f.v.size() - 1); first = std::min(first, f.step ? i * w : (i - 1) * w + w * f.v[i - 1] / (f.v[i - 1] - f.v[i])); }
        }
    }
    if (!all) return;
    if (found != (first < T + T * 1e-9)) { if (fabs(first - T) < 1e-9 * T) return; mc::fail("%s locator: the first event is at %g, found %d at %g (tol=%g)", kname[c.kind], first, found, q[0], tol); }
    if (found) {
        double slope = c.kind < DISC ? sc / c.nodes / T * 0.05 : 1;   // least slope of z at a crossing
        if (q[0] < first - 1e-6 * T || q[0] > first + tol / slope + 1e-6 * T) mc::fail("%s locator: the first event is at %g, found at %g (tol=%g)", kname[c.kind], first, q[0], tol);
    }
}
// the spline is exact for cubics
static void spline_run(bool th) {
    static const int cf[] = {-2, 0, 1, 3, -1}; int n = th ? 5 : 4;
    double a = cf[mc::choose(n)], b = cf[mc::choose(n)], c = cf[mc::choose(n)], d = cf[mc::choose(n)];
    static const double hs[] = {1, 0.25, 3, 0.001, 40}; double h = hs[mc::choose(5)];
    auto q = [&](double t) { return ((a * t + b) * t + c) * t + d; }; auto dq = [&](double t) { return (3 * a * t + 2 * b) * t + c; };
    adevs::spline p(3);
    for (int round = 0; round < 2; round++) {
        double q0[3] = {5, q(0), -q(0)}, d0[3] = {0, dq(0), -dq(0)}, q1[3] = {5, q(h), -q(h)}, d1[3] = {0, dq(h), -dq(h)}, r[3];
        p.init(q0, d0, q1, d1, h); mc::step();
        for (int i = 0; i <= 8; i++) {
            double t = h * i / 8; p.interpolate(r, t); mc::compared();
            double scale = 1 + fabs(a) * h * h * h + fabs(b) * h * h + fabs(c) * h + fabs(d);
            if (fabs(r[0] - 5) > 1e-12 || fabs(r[1] - q(t)) > 1e-9 * scale || r[2] != -r[1]) mc::fail("spline of %g t^3 + %g t^2 + %g t + %g over %g at %g is %.17g instead of %.17g", a, b, c, d, h, t, r[1], q(t));
        }
        mc::state(mc::mix(mc::hash_str(std::to_string(r[1])), h * 1000));
        a++; d -= 2;
    }
}
static void none(bool) {
    int kind = mc::choose(6), n = kind == 5 ? mc::choose(3) : 0; Sys s(n); s.limit = 1e9; for (int k = 0; k < n; k++) s.f.push_back(Fn{{-1, 1}, 1, false, false});
    Exact so(&s); std::unique_ptr<adevs::event_locator<int>> lo;
    switch (kind) {
        case LINEAR: lo.reset(new adevs::linear_event_locator<int>(&s, 1e-3)); break;
        case BISECT: lo.reset(new adevs::bisection_event_locator<int>(&s, 1e-3)); break;
        case DISC: lo.reset(new adevs::discontinuous_event_locator<int>(&s, 1e-3)); break;
        case FAST: lo.reset(new adevs::fast_event_locator<int>(&s, 1e-3)); break;
        case SPLINE: lo.reset(new adevs::fast_event_locator<int>(&s, 1e-3, true)); break;
        default: lo.reset(new adevs::null_event_locator<int>());
    }
    double q0[3] = {0, 1, 0}, q[3] = {1, 2, 1}, h = 1; bool ev[1] = {false}; mc::step(); mc::compared();
    if (lo->find_events(ev, q0, q, &so, h) || h != 1 || q[0] != 1 || q[1] != 2) mc::fail("an event or a changed step without event functions");
}
static void build(std::vector<mc::Scenario>& v, bool th) {
    auto add = [&](std::string n, Cfg c) { v.push_back({std::string(kname[c.kind]) + ", " + n, [c] { run(c); }}); };
    std::vector<double> hs = {1, 3, 0.1, 1 + 0x1p-52, 1e-3, 1e6}, tols = {1e-2, 1e-7, 1e-12};
    for (int k = 0; k < NKIND; k++) for (int st = 0; st < 2; st++) {
        if (st && k < DISC) continue;   // bisection and interpolation require continuous functions
        std::string sn = st ? "piecewise constant, " : "piecewise linear, ";
        Cfg c; c.kind = (Kind)k; c.steps = st; c.scales = {1}; c.values = {1, 2, 0, -1, -2};
        c.M = 1; c.nodes = th ? 5 : 4; c.hs = hs; c.tols = tols; add(sn + "1 function", c);
        c.M = 2; c.nodes = 2; c.hs = {1, 0.1}; c.tols = {1e-2, 1e-7}; add(sn + "2 functions", c);
        c.M = 3; c.values = {1, 0, -1}; c.hs = {3}; c.tols = {1e-3}; if (th) c.nodes = 3; add(sn + "3 functions", c);
        c.M = 2; c.nodes = th ? 4 : 3; c.values = {1, 0, -1}; c.hs = {1}; c.tols = {1e-3}; add(sn + "2 functions, finer", c);
        for (int so = 1; so < 3; so++) { Cfg d = c; d.solver = so; d.M = 1; d.nodes = 3; d.values = {1, 2, 0, -1, -2}; d.hs = {1, 0.3}; d.tols = {1e-2, 1e-6}; add(sn + "solver " + std::to_string(so), d); }
        if (k == FAST || k == SPLINE || k == DISC) { Cfg d = c; d.M = 1; d.nodes = 3; d.values = {1, 3, 0, -1}; d.scales = {1e6, 1e-6}; d.hs = hs; d.tols = {1e-3, 1e-9, 1e-15}; add(sn + "scaled", d); }
        else { Cfg d = c; d.M = 1; d.nodes = 3; d.values = {1, 3, 0, -1}; d.scales = {1e4, 1e-4, 1e9}; d.hs = hs; d.tols = {1e-3}; add(sn + "scaled", d); }
    }
    auto addc = [&](std::string n, Cfg c) { v.push_back({std::string(kname[c.kind]) + ", repeated searches, " + n, [c] { chain(c); }}); };
    for (int k = 0; k < NKIND; k++) for (int st = 0; st < (k < DISC ? 1 : 2); st++) {
        Cfg c; c.kind = (Kind)k; c.steps = st; c.scales = {1}; c.values = {1, 2, 0, -1, -2}; std::string sn = st ? "piecewise constant, " : "piecewise linear, ";
        c.M = 1; c.nodes = 1; c.hs = hs; c.tols = {1e-2, 1e-6}; addc(sn + "one segment", c);
        c.nodes = 4; c.hs = {1, 3, 0.1}; addc(sn + "1 function", c);
        c.M = 2; c.nodes = 2; addc(sn + "2 functions", c);
    }
    for (int k = 0; k < DISC; k++) { Cfg d; d.kind = (Kind)k; d.M = 1; d.nodes = 3; d.values = {1, 3, 0, -1, -7}; d.scales = {1e13, 1e15, 1e17}; d.hs = hs; d.tols = {1e-3, 1e-6}; add("piecewise linear, huge", d); }
    v.push_back({"spline on cubics", [th] { spline_run(th); }});
    v.push_back({"no event functions", [th] { none(th); }});
}
int main(int argc, char** argv) { return mc::main_(argc, argv, "C17", build); }
