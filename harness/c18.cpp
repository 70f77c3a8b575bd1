// C18: the numerical integrators. Order conditions on every rooted tree, and all
// short histories of integrate()/advance() on a family of systems against the
// definition of the methods.
#include "mc.h"
#include <cassert>
#include <adevs/solvers/corrected_euler.h>
#include <adevs/solvers/rk_45.h>
#include <adevs/solvers/trap.h>
#include <cmath>
#include <functional>
#include <memory>
#include <map>

typedef std::vector<double> V;
typedef std::function<void(double const*, double*)> F;
enum Method { CE, RK, TR };
static const char* mname[] = {"corrected_euler", "rk_45", "trap"};
struct Sys : adevs::ode_system<int> {
    F f; std::function<void(double const*, double*)> j; unsigned long calls = 0, jcalls = 0, limit = 1000000; int n;
    Sys(int n, F f) : adevs::ode_system<int>(n, 0), f(f), n(n) {}
    void init(double*) override { mc::fail("a solver called init"); }
    void der_func(double const* q, double* dq) override { if (++calls > limit) mc::fail("the integration does not end"); f(q, dq); }
    bool get_jacobian(double const* q, double* J) override { if (!j) return adevs::ode_system<int>::get_jacobian(q, J); jcalls++; if (J) j(q, J); return true; }
    void state_event_func(double const*, double*) override {}
    double time_event_func(double const*) override { return adevs_inf<double>(); }
    void internal_event(double*, bool const*) override { mc::fail("a solver called internal_event"); }
    void external_event(double*, double, std::list<adevs::PinValue<int>> const&) override { mc::fail("a solver called external_event"); }
    void confluent_event(double*, bool const*, std::list<adevs::PinValue<int>> const&) override { mc::fail("a solver called confluent_event"); }
    void output_func(double const*, bool const*, std::list<adevs::PinValue<int>>&) override { mc::fail("a solver called output_func"); }
};
static adevs::ode_solver<int>* make(Method m, Sys* s, double tol, double hmax) {
    if (m == CE) return new adevs::corrected_euler<int>(s, tol, hmax);
    if (m == RK) return new adevs::rk_45<int>(s, tol, hmax);
    return new adevs::trap<int>(s, tol, hmax, true);
}
// --- the methods by definition ---------------------------------------------------
struct Tableau { int s; double a[6][6], b[6], e[6]; };   // e: difference to the embedded lower order method
static const Tableau midpoint = {2, {{0}, {0.5}}, {0, 1}, {1, -1}};
static const Tableau england = {6, {{0}, {0.5}, {0.25, 0.25}, {0, -1, 2}, {7. / 27, 10. / 27, 0, 1. / 27}, {28. / 625, -1. / 5, 546. / 625, 54. / 625, -378. / 625}},
    {1. / 24, 0, 0, 5. / 48, 27. / 56, 125. / 336}, {1. / 24 - 1. / 6, 0, -2. / 3, 5. / 48 - 1. / 6, 27. / 56, 125. / 336}};
static V reference(Tableau const& t, Sys& s, V const& q, double h, double& err, double& scale) {
    std::vector<V> k(t.s, V(s.n)); V y(s.n); scale = 0;
    for (int i = 0; i < t.s; i++) {
        for (int c = 0; c < s.n; c++) { y[c] = q[c]; for (int j = 0; j < i; j++) y[c] += h * t.a[i][j] * k[j][c]; }
        s.f(y.data(), k[i].data());
    }
    err = 0; V r(q);
    for (int c = 0; c < s.n; c++) {
        double e = 0, m = 0;
        for (int i = 0; i < t.s; i++) { r[c] += h * t.b[i] * k[i][c]; e += h * t.e[i] * k[i][c]; m = std::max(m, fabs(h * k[i][c])); }
        if (!(fabs(e) <= err)) err = fabs(e);
        scale = std::max(scale, m);
    }
    return r;
}
// --- rooted trees -----------------------------------------------------------------
struct Tree { int order; double gamma; std::vector<int> kids; std::string name; };
static std::vector<Tree> trees;
static void grow(int maxorder) {
    trees.push_back({1, 1, {}, "o"});
    for (int n = 2; n <= maxorder; n++) {
        std::vector<int> kids;
        std::function<void(int, int)> rec = [&](int left, int from) {
            if (!left) { Tree t{n, (double)n, kids, "["}; for (int k : kids) { t.gamma *= trees[k].gamma; t.name += trees[k].name; } t.name += "]"; trees.push_back(t); return; }
            for (int k = from; k < (int)trees.size(); k++) if (trees[k].order < n && trees[k].order <= left) { kids.push_back(k); rec(left - trees[k].order, k); kids.pop_back(); }
        };
        rec(n - 1, 0);
    }
}
// the components needed for the given trees, in the order given by 'reverse'
struct TreeSys { std::vector<int> id; std::map<int, int> at; double sign; };
static void collect(int t, std::vector<int>& v) { for (int k : trees[t].kids) collect(k, v); if (std::find(v.begin(), v.end(), t) == v.end()) v.push_back(t); }
static F field(TreeSys const& ts) {
    return [ts](double const* q, double* dq) {
        for (size_t i = 0; i < ts.id.size(); i++) { double p = ts.sign; for (int k : trees[ts.id[i]].kids) p *= ts.sign * q[ts.at.at(k)]; dq[i] = p; }
    };
}
static void order_run(Method m, int maxorder, int others) {
    TreeSys ts; int n = 0; while (n < (int)trees.size() && trees[n].order <= maxorder) n++;
    int t = mc::choose(n); collect(t, ts.id);
    int extra = -1;
    if (others) { extra = mc::choose(others); collect(extra, ts.id); }
    if (mc::flip()) std::reverse(ts.id.begin(), ts.id.end());
    for (size_t i = 0; i < ts.id.size(); i++) ts.at[ts.id[i]] = i;
    ts.sign = mc::flip() ? -1 : 1;
    double h = std::vector<double>{1, 0.5, 2}[mc::choose(3)];
    int sz = ts.id.size(); Sys s(sz, field(ts));
    int p = m == RK ? 5 : 2;
    std::unique_ptr<adevs::ode_solver<int>> so(make(m, &s, m == TR ? 1e-9 : 1e30, 4));
    V q(sz, 0.0); double dt = so->integrate(q.data(), h); mc::step();
    mc::trace("%s, tree %s (order %d, gamma %g), h=%g: component %.17g", mname[m], trees[t].name.c_str(), trees[t].order, trees[t].gamma, h, q[ts.at[t]]);
    if (dt != h) mc::fail("%s: step %g of %g although there is no error to be controlled", mname[m], dt, h);
    for (int i = 0; i < sz; i++) {
        Tree const& u = trees[ts.id[i]]; if (u.order > p) continue;
        double exact = ts.sign * pow(h, u.order) / u.gamma; mc::compared();
        if (fabs(q[i] - exact) > (m == TR ? 1e-7 : 4e-14) * (1 + pow(h, u.order))) mc::fail("%s is not of order %d: tree %s with h=%g gives %.17g instead of %.17g", mname[m], p, u.name.c_str(), h, q[i], exact);
        mc::state(mc::mix(mc::hash_str(u.name), (int)(h * 4) + 100 * m + (ts.sign > 0 ? 10 : 20)));
    }
    // the error estimate sees exactly the terms beyond the order of the embedded method
    if (m == TR) return;
    int top = 0; for (int i : ts.id) top = std::max(top, trees[i].order);
    std::unique_ptr<adevs::ode_solver<int>> st(make(m, &s, 1e-12, 4));
    V r(sz, 0.0); dt = st->integrate(r.data(), h); mc::compared();
    if (top < p && dt != h) mc::fail("%s: a step without error of order below %d was shortened to %g of %g", mname[m], p, dt, h);
    double err, scale; reference(m == RK ? england : midpoint, s, V(sz, 0.0), dt, err, scale);
    if (err > 1e-12 + 1e-14 * scale) mc::fail("%s: the estimated error %g of the accepted step %g exceeds the tolerance 1e-12", mname[m], err, dt);
}
// --- histories ----------------------------------------------------------------------
struct Model { const char* name; int n; V q0; F f; F j; bool linear, stiff; };
static std::vector<Model> models;
static void make_models() {
    models.push_back({"decay", 1, {1}, [](double const* q, double* d) { d[0] = -q[0]; }, [](double const*, double* J) { J[0] = -1; }, true, false});
    models.push_back({"growth", 1, {-0.5}, [](double const* q, double* d) { d[0] = 2 * q[0]; }, [](double const*, double* J) { J[0] = 2; }, true, false});
    models.push_back({"oscillator", 2, {1, 0}, [](double const* q, double* d) { d[0] = q[1]; d[1] = -3 * q[0]; }, [](double const*, double* J) { J[0] = 0; J[1] = -3; J[2] = 1; J[3] = 0; }, true, false});
    models.push_back({"chain", 3, {1, 2, -1}, [](double const* q, double* d) { d[0] = -q[0]; d[1] = 4 * q[0]; d[2] = q[1] - q[2]; }, [](double const*, double* J) { for (int i = 0; i < 9; i++) J[i] = 0; J[0] = -1; J[1] = 4; J[5] = 1; J[8] = -1; }, true, false});
    models.push_back({"cubic", 1, {1.5}, [](double const* q, double* d) { d[0] = -q[0] * q[0] * q[0]; }, [](double const* q, double* J) { J[0] = -3 * q[0] * q[0]; }, false, false});
    models.push_back({"pendulum", 2, {1, 0.5}, [](double const* q, double* d) { d[0] = q[1]; d[1] = -sin(q[0]); }, [](double const* q, double* J) { J[0] = 0; J[1] = -cos(q[0]); J[2] = 1; J[3] = 0; }, false, false});
    models.push_back({"stiff", 2, {2, 1}, [](double const* q, double* d) { d[0] = -100 * (q[0] - q[1]); d[1] = -q[1]; }, [](double const*, double* J) { J[0] = -100; J[1] = 0; J[2] = 100; J[3] = -1; }, true, true});
    models.push_back({"logistic", 1, {0.4}, [](double const* q, double* d) { d[0] = q[0] * (2 - q[0]); }, [](double const* q, double* J) { J[0] = 2 - 2 * q[0]; }, false, false});
    models.push_back({"at rest", 2, {3, -0.0}, [](double const*, double* d) { d[0] = 0; d[1] = 0; }, [](double const*, double* J) { for (int i = 0; i < 4; i++) J[i] = 0; }, true, false});
}
// adds a clock at the front or the back
static F with_clock(Model const& m, bool front) { int n = m.n; F f = m.f; return [=](double const* q, double* d) { f(q + front, d + front); d[front ? 0 : n] = 1; }; }
static F jac_clock(Model const& m, bool front) {
    int n = m.n; F j = m.j;
    return [=](double const* q, double* J) { V a(n * n); j(q + front, a.data()); for (int i = 0; i < (n + 1) * (n + 1); i++) J[i] = 0; for (int c = 0; c < n; c++) for (int r = 0; r < n; r++) J[(c + front) * (n + 1) + r + front] = a[c * n + r]; };
}
struct HCfg { Method m; int model; int depth; V lims, advs, hmaxs, tols; bool jac = false; };
static void history_run(HCfg const& c) {
    Model const& mo = models[c.model];
    bool front = mc::flip(); int n = mo.n + 1, ck = front ? 0 : mo.n;
    double tol = mc::pick(c.tols), hmax = mc::pick(c.hmaxs);
    Sys s(n, with_clock(mo, front)); if (c.jac) s.j = jac_clock(mo, front);
    Sys bare(mo.n, mo.f); if (c.jac) bare.j = mo.j;
    s.limit = bare.limit = 4000000;
    std::unique_ptr<adevs::ode_solver<int>> so(make(c.m, &s, tol, hmax)), twin(make(c.m, &s, tol, hmax)), alone(make(c.m, &bare, tol, hmax));
    V q(n, 0.0), qb(mo.q0); for (int i = 0; i < mo.n; i++) q[i + front] = mo.q0[i];
    double bound = INFINITY;   // trap: what the last step's error allows for this one
    for (int d = 0; d < c.depth; d++) {
        int k = mc::choose(c.lims.size() + c.advs.size() + 1);
        if (k == (int)(c.lims.size() + c.advs.size())) { // jump to another state, as after an event
            for (int i = 0; i < mo.n; i++) q[i + front] = qb[i] = mo.q0[i] * (d + 2) / 2; continue;
        }
        V before = q, beforet = q, beforeb = qb;
        s.calls = bare.calls = 0;
        if (k < (int)c.lims.size()) {
            double lim = c.lims[k];
            double dt = so->integrate(q.data(), lim); mc::step(); unsigned long used = s.calls;
            double db = alone->integrate(qb.data(), lim);
            double dtw = twin->integrate(beforet.data(), lim);
            mc::trace("%s on %s, tol %g h_max %g: integrate(limit %g) took %.17g with %lu evaluations", mname[c.m], mo.name, tol, hmax, lim, dt, used);
            auto bad = [&](std::string what) { mc::fail("%s on %s, tol %g, h_max %g, integrate with limit %g took %.17g: %s", mname[c.m], mo.name, tol, hmax, lim, dt, what.c_str()); };
            mc::compared();
            if (!(dt <= lim)) bad("longer than the limit");
            if (!(dt <= hmax)) bad("longer than the maximum step");
            if (!(dt >= 0) || (lim > 0 && dt == 0)) bad("no progress");
            if (lim == 0) { if (before != q) bad("the state changed in a step of size zero"); }
            if (dtw != dt || memcmp(beforet.data(), q.data(), n * sizeof(double))) bad("a second solver with the same history has another result");
            if (c.m != TR && (db != dt || memcmp(&qb[0], &q[front], mo.n * sizeof(double)))) bad("the result depends on the presence of the clock");
            if (c.m == TR) { if (fabs(db - dt) > 1e-6 * dt) { /* rounding of the linear algebra */ qb.assign(q.begin() + front, q.begin() + front + mo.n); } }
            if (fabs(q[ck] - before[ck] - dt) > 1e-14 * (1 + q[ck])) bad("the state was not advanced by the step returned");
            if (lim > 0 && c.m != TR) {
                double err, scale; V r = reference(c.m == RK ? england : midpoint, s, before, dt, err, scale);
                double mag = 0; for (double x : r) mag = std::max(mag, fabs(x));
                for (int i = 0; i < n; i++) if (!(fabs(r[i] - q[i]) <= 1e-13 * (mag + scale))) bad("the state is not that of the method's step");
                if (!(err <= tol * (1 + 1e-9) + 1e-14 * scale)) bad("the estimated error exceeds the tolerance: " + std::to_string(err / tol) + " times");
            }
            if (lim > 0 && c.m == TR) {
                V a(n), b(n); s.f(before.data(), a.data()); s.f(q.data(), b.data());
                double mag = 0; for (int i = 0; i < n; i++) mag = std::max({mag, fabs(q[i]), fabs(dt * a[i]), fabs(dt * b[i])});
                double C = 0; bool sure = true;
                for (int i = 0; i < n; i++) {
                    double res = fabs(before[i] + dt / 2 * (a[i] + b[i]) - q[i]);
                    if (!(res <= std::min(tol, 1e-5) * 1.0001 + 1e-14 * mag)) bad("the trapezoidal rule is not satisfied within the tolerance");
                    double g = fabs(before[i] + dt * a[i] - q[i]); C = std::max(C, g / (dt * dt)); if (g > 0 && g < 1e-9 * mag) sure = false;
                }
                if (!(dt <= bound * (1 + 1e-9))) bad("longer than the error of the last step allows: " + std::to_string(bound));
                bound = sure && C > 0 ? sqrt(tol / C) : INFINITY;
                if (mo.linear && d == 0 && dt != std::min(lim, hmax)) bad("the first step was shortened although the system is linear");
                if (mo.linear && used > 40 && c.jac) bad("too many evaluations for a linear system");
            }
        } else {
            double h = c.advs[k - c.lims.size()];
            so->advance(q.data(), h); mc::step(); mc::compared();
            alone->advance(qb.data(), h); twin->advance(beforet.data(), h);
            mc::trace("%s on %s, tol %g h_max %g: advance(%g) with %lu evaluations", mname[c.m], mo.name, tol, hmax, h, s.calls / 2);
            auto bad = [&](std::string what) { mc::fail("%s on %s, tol %g, h_max %g, advance by %g: %s", mname[c.m], mo.name, tol, hmax, h, what.c_str()); };
            if (fabs(q[ck] - before[ck] - h) > 1e-12 * (1 + h)) bad("the state was advanced by " + std::to_string(q[ck] - before[ck]));
            if (h == 0 && before != q) bad("the state changed");
            if (memcmp(beforet.data(), q.data(), n * sizeof(double))) bad("a second solver with the same history has another result");
            if (c.m != TR && memcmp(&qb[0], &q[front], mo.n * sizeof(double))) bad("the result depends on the presence of the clock");
            if (c.m == TR) { qb.assign(q.begin() + front, q.begin() + front + mo.n); bound = INFINITY; }
            // against a fine solution
            int sub = 400; V r = before; double e, sc; for (int i = 0; i < sub; i++) r = reference(england, s, r, h / sub, e, sc);
            double mag = 1; for (double x : r) mag = std::max(mag, fabs(x));
            double per = c.m == TR ? std::max(0.02 * (1 + hmax * hmax), tol * 50) : tol * 20;
            double allow = 1e-9 + per * (1 + exp(2 * h)) * (c.m == TR ? 1 : s.calls);
            if (!mo.stiff && mag < 1e3 && c.m != TR) for (int i = 0; i < n; i++) if (!(fabs(r[i] - q[i]) <= allow * mag)) bad("the result is far from the solution: " + std::to_string(q[i]) + " instead of " + std::to_string(r[i]));
        }
        for (double x : q) if (!std::isfinite(x)) mc::fail("%s on %s: the state became %g", mname[c.m], mo.name, x);
        double mg = 0; for (double x : q) mg = std::max(mg, fabs(x)); if (mg > 1e6) return;   // left the domain
        uint64_t fp = c.m; for (double x : q) { uint64_t u; memcpy(&u, &x, 8); fp = mc::mix(fp, u); } mc::state(fp);
    }
}
// systems for which a first trial step is far too long: overflow, no valid error estimate
static void wild_run(bool th) {
    Method m = (Method)mc::choose(2);
    int kind = mc::choose(4); double q0 = std::vector<double>{1, 10, 100, 1000, -30, 1e5}[mc::choose(th ? 6 : 5)];
    double hmax = std::vector<double>{1, 10, 1000, 1e6}[mc::choose(4)], h = std::vector<double>{0.01, 1, 10}[mc::choose(3)], tol = mc::flip() ? 1e-3 : 1e-5;
    F f;
    if (kind == 1 && fabs(q0) > 40) return;
    if (kind == 2 && fabs(q0) > 100) return;
    if (kind == 3 && q0 < 0) return;
    switch (kind) {
        case 0: f = [](double const* q, double* d) { d[0] = -q[0] * q[0] * q[0]; d[1] = 1; }; break;
        case 1: f = [](double const* q, double* d) { d[0] = -sinh(q[0]); d[1] = 1; }; break;
        case 2: f = [](double const* q, double* d) { double x = fabs(q[0]); d[0] = -q[0] * x * x * x * x; d[1] = 1; }; break;
        default: f = [](double const* q, double* d) { d[0] = -10 * log1p(q[0]); d[1] = 1; };
    }
    Sys s(2, f); s.limit = 100000000; std::unique_ptr<adevs::ode_solver<int>> so(make(m, &s, tol, hmax));
    V q = {q0, 0}; double t = 0; unsigned long n = 0;
    while (t < h) {
        V b = q; double dt = so->integrate(q.data(), h - t); mc::step();
        auto bad = [&](const char* w) { mc::fail("%s, field %d from %g, tol %g, h_max %g, at %g of %g, step %g: %s (state %.17g)", mname[m], kind, q0, tol, hmax, t, h, dt, w, q[0]); };
        if (!(dt <= h - t && dt <= hmax && dt > 0)) bad("the step is not within its limits");
        if (!std::isfinite(q[0]) || fabs(q[0]) > fabs(b[0]) + 10 * tol) bad("the solution does not decay");
        if (fabs(q[1] - b[1] - dt) > 1e-13 * (1 + h)) bad("not advanced by the step returned");
        double err, sc; reference(m == RK ? england : midpoint, s, b, dt, err, sc); mc::compared();
        if (!(err <= tol * (1 + 1e-9) + 1e-14 * sc)) bad("the estimated error exceeds the tolerance");
        if (++n > 100000) bad("no progress");
        t += dt;
        if (h - t < 1e-15 * h) break;
    }
    V r = {q0, 0}; so.reset(make(m, &s, tol, hmax)); so->advance(r.data(), h);
    if (fabs(r[1] - h) > 1e-11 * (1 + h) || fabs(r[0] - q[0]) > 1e-12 * (1 + fabs(q0))) mc::fail("%s, field %d from %g, tol %g, h_max %g: advance(%g) is not the sequence of its steps (%g, %.17g instead of %.17g)", mname[m], kind, q0, tol, hmax, h, r[1], r[0], q[0]);
    mc::state(mc::mix(mc::hash_str(std::to_string(q[0])), n));
}
// no step has a finite error estimate: nothing is accepted, and the search ends with an exception
static void hopeless_run(bool) {
    Method m = (Method)mc::choose(2); int n = 1 + mc::choose(3), at = mc::choose(n), kind = mc::choose(3); bool adv = kind < 2 && mc::flip();
    double hmax = std::vector<double>{1, 1000}[mc::choose(2)], h = std::vector<double>{0.01, 10}[mc::choose(2)], tol = mc::flip() ? 1e-3 : 1e-12, q0 = mc::flip();
    F f = [=](double const* q, double* d) { for (int i = 0; i < n; i++) d[i] = 1; d[at] = kind == 0 ? HUGE_VAL : kind == 1 ? -HUGE_VAL : q[at] == q0 ? 1 : HUGE_VAL; };
    Sys s(n, f); std::unique_ptr<adevs::ode_solver<int>> so(make(m, &s, tol, hmax));
    V q(n, q0); bool threw = false; mc::step(); mc::compared(); mc::state(mc::mix(n * 10 + at, kind * 10 + m));
    double dt = 0;
    try { if (adv) so->advance(q.data(), h); else dt = so->integrate(q.data(), h); } catch (adevs::exception const&) { threw = true; }
    if (kind == 2 && !threw && !adv && dt < 1e-15) return;   // a step too small to move the state
    if (!threw) mc::fail("%s accepts a step of %g where no error estimate is finite (state %g)", mname[m], dt, q[at]);
}
// trapezoidal steps without a solution must be shortened until there is one
static void fold_run(bool) {
    double q0 = std::vector<double>{1, 2, 0.5}[mc::choose(3)], hmax = std::vector<double>{0.5, 1, 5, 100}[mc::choose(4)], tol = std::vector<double>{1e-3, 1e-6, 1e-10}[mc::choose(3)]; bool jac = mc::flip();
    Sys s(2, [](double const* q, double* d) { d[0] = 1; d[1] = q[1] * q[1]; });
    if (jac) s.j = [](double const* q, double* J) { J[0] = J[1] = J[2] = 0; J[3] = 2 * q[1]; };
    adevs::trap<int> so(&s, tol, hmax, true); V q = {0, q0};
    for (int i = 0; i < 6; i++) {
        V b = q; double dt = so.integrate(q.data(), 1e9); mc::step(); mc::compared();
        auto bad = [&](const char* w) { mc::fail("trap on q'=q^2 from %g, tol %g, h_max %g, step %g from %g to %g: %s", q0, tol, hmax, dt, b[1], q[1], w); };
        if (!(dt > 0 && dt <= hmax)) bad("the step is not within its limits");
        if (fabs(q[0] - b[0] - dt) > 1e-9) bad("not advanced by the step returned");
        double a = b[1] * b[1], c = q[1] * q[1];
        if (!(fabs(b[1] + dt / 2 * (a + c) - q[1]) <= std::min(tol, 1e-5) * 1.0001 + 1e-13 * (fabs(q[1]) + dt * c))) bad("the trapezoidal rule is not satisfied");
        mc::state(mc::mix(mc::hash_str(std::to_string(q[1])), i)); if (fabs(q[1]) > 1e6) return;
    }
}
static void build(std::vector<mc::Scenario>& v, bool th) {
    grow(6); make_models();
    int upto[8]; for (int o = 1; o <= 6; o++) { upto[o] = 0; while (upto[o] < (int)trees.size() && trees[upto[o]].order <= o) upto[o]++; }
    for (int m = 0; m < 3; m++) {
        v.push_back({std::string(mname[m]) + ", every rooted tree", [m] { order_run((Method)m, m == RK ? 6 : 4, 0); }});
        int o = upto[m == RK ? 5 : th ? 4 : 3]; v.push_back({std::string(mname[m]) + ", every pair of rooted trees", [=] { order_run((Method)m, m == RK ? 5 : th ? 4 : 3, o); }});
    }
    for (int m = 0; m < 3; m++) for (int k = 0; k < (int)models.size(); k++) {
        HCfg c; c.m = (Method)m; c.model = k; c.depth = th ? 5 : 4;
        c.lims = {0, 1e-3, 0.07, 0.5, 1e9, adevs_inf<double>()}; c.advs = {0, 0.4 + 1e-8, 1.1};
        c.hmaxs = {0.02, 0.4}; c.tols = {1e-2, 1e-6}; if (models[k].stiff || models[k].name == std::string("at rest")) c.depth--;
        if (k == 1 || k == 7) c.lims.pop_back();
        if (m == TR) { c.lims = {0, 1e-3, 0.07, 0.5, 1e9}; c.advs = {0.4 * (1 + 1e-8)}; c.tols = {1e-2, 1e-6, 3e-8}; }
        if (m == TR) c.depth--;
        for (int j = 0; j < (m == TR ? 2 : 1); j++) { c.jac = j; v.push_back({std::string(mname[m]) + (j ? " with Jacobian" : "") + ", histories on " + models[k].name, [c] { history_run(c); }}); }
    }
    v.push_back({"overflow in trial steps", [th] { wild_run(th); }});
    v.push_back({"infinite derivatives", [th] { hopeless_run(th); }});
    v.push_back({"trap, step without solution", [th] { fold_run(th); }});
}
int main(int argc, char** argv) { return mc::main_(argc, argv, "C18", build); }
