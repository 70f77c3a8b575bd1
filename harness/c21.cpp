// C21: the alternative scheduler (schedule2.h) against a plain set of (model, ta).
#include "mc.h"
#include <any>
#include <cassert>
#include "adevs/schedule2.h"
using namespace adevs;
struct D : Atomic<int, double> {
    double v = 0; unsigned long reads = 0;
    void delta_int() {} void delta_ext(double, std::list<PinValue<int>> const&) {} void delta_conf(std::list<PinValue<int>> const&) {}
    void output_func(std::list<PinValue<int>>&) {} double ta() { return v; }
};
static double at(int p) { return p < 0 ? adevs_inf<double>() : 0.5 * p; }
struct Q {
    std::vector<std::shared_ptr<D>> m;
    std::vector<int> in;   // present?
    std::vector<int> cur;  // priority known to the scheduler
    Schedule<int, double> q;
    Q(int n) : in(n, 0), cur(n, 0) { for (int i = 0; i < n; i++) m.push_back(std::make_shared<D>()); }
    template <class F> void op(int i, bool legal, const char* what, F f) {
        bool threw = false;
        try { f(); } catch (adevs::exception&) { threw = true; }
        if (threw == legal) mc::fail(legal ? "%s of m%d threw although it is allowed" : "%s of m%d did not throw", what, i);
        mc::step();
    }
    void add(int i, int p) { mc::trace("add m%d ta=%d", i, p); if (!in[i]) m[i]->v = at(p); op(i, !in[i], "add", [&] { q.add(m[i]); }); if (!in[i]) { in[i] = 1; cur[i] = p; } }
    void rem(int i) { mc::trace("remove m%d", i); op(i, in[i], "remove", [&] { q.remove(m[i]); }); in[i] = 0; }
    void upd(int i, int p) { mc::trace("update m%d ta=%d", i, p); if (in[i]) m[i]->v = at(p); op(i, in[i], "update", [&] { q.update(m[i]); }); if (in[i]) cur[i] = p; }
    int idx(std::shared_ptr<Atomic<int, double>> a) { for (size_t i = 0; i < m.size(); i++) if (m[i] == a) return i; return -1; }
    double minp() { double b = adevs_inf<double>(); for (size_t i = 0; i < m.size(); i++) if (in[i] && at(cur[i]) < b) b = at(cur[i]); return b; }
    int n() { int c = 0; for (int x : in) c += x; return c; }
    void pop() {
        if (!n()) return;
        int i = idx(q.get_next()); check();
        mc::trace("remove_next (m%d)", i);
        q.remove_next(); in[i] = 0; mc::step();
    }
    void check() {
        mc::compared();
        if ((int)q.size() != n()) mc::fail("size is %zu, %d models are present", q.size(), n());
        if (q.empty() != (n() == 0)) mc::fail("empty() is wrong");
        if (q.get_minimum() != minp()) mc::fail("get_minimum is %g, expected %g", q.get_minimum(), minp());
        auto a = q.get_next();
        if (n() == 0) { if (a) mc::fail("get_next of an empty schedule is not null"); }
        else { int i = idx(a); if (i < 0 || !in[i] || at(cur[i]) != minp()) mc::fail("get_next is m%d, which does not have the smallest time advance", i); }
        uint64_t h = 1; for (size_t i = 0; i < m.size(); i++) h = mc::mix(h, in[i] ? cur[i] + 9 : 0); mc::state(h);
    }
    void drain() { int g = m.size() + 2; while (n()) { if (!g--) mc::fail("drain does not end"); pop(); check(); } }
};
static void seq(int n, int npri, int depth, bool all) {
    Q s(n); s.check();
    int per = npri + 1 + 1 + npri + 1;  // add with each priority or inf, remove, update likewise
    for (int d = 0; d < depth; d++) {
        int o = mc::choose(n * per + 2 + (all ? 1 : 0));
        if (o == n * per) s.pop();
        else if (o == n * per + 1) { mc::trace("clear"); s.q.clear(); for (auto& x : s.in) x = 0; mc::step(); }
        else if (o == n * per + 2) {  // several models change without update(), then update_all
            for (int i = 0; i < n; i++) if (s.in[i]) { s.cur[i] = mc::choose(npri); s.m[i]->v = at(s.cur[i]); }
            mc::trace("update_all"); s.q.update_all(); mc::step();
        } else {
            int i = o / per, k = o % per;
            if (k <= npri) s.add(i, k - 1); else if (k == npri + 1) s.rem(i); else s.upd(i, k - npri - 3);
        }
        s.check();
    }
    s.drain();
}
static void fill(int n, int npri, int k) {
    Q s(n);
    for (int i = 0; i < n; i++) s.add(i, 2 * mc::choose(npri) + 1);
    s.check();
    for (int d = 0; d < k; d++) {
        int i = mc::choose(n), o = mc::choose(2 * npri + 3);
        if (o == 2 * npri + 2) { if (s.in[i]) s.rem(i); else s.add(i, 2); }
        else if (s.in[i]) s.upd(i, o - 1); else s.add(i, o - 1);
        s.check();
    }
    // drain alternating front and arbitrary removal through the index
    bool alt = mc::flip();
    int g = 3 * n;
    while (s.n()) {
        if (!g--) mc::fail("drain does not end");
        if (alt) { for (int i = 0; i < n; i++) if (s.in[i]) { s.rem(i); break; } s.check(); }
        s.pop(); s.check();
    }
}
static int pattern(int k, int i, int n) { switch (k) { case 0: return i; case 1: return n - i; case 2: return 5; case 3: return i * 37 % n; case 4: return i * 11 % 4; default: return i < n / 2 ? n - i : i; } }
static void large(int n, int stride) {
    int kind = mc::choose(6), i = mc::choose((n + stride - 1) / stride) * stride, what = mc::choose(5);
    Q s(n);
    for (int j = 0; j < n; j++) s.add(j, 2 + pattern(kind, j, n));
    s.check();
    if (what == 0) s.rem(i); else if (what == 1) s.upd(i, 0); else if (what == 2) s.upd(i, 3 * n); else if (what == 3) s.upd(i, n / 2); else { s.rem(i); s.check(); s.add(i, 1); }
    s.check();
    s.rem(n - 1 - i == i ? (i + 1) % n : n - 1 - i); s.check();
    for (int j = 0; j < n; j += 3) { if (s.in[j]) s.upd(j, 2 + pattern((kind + 1) % 6, j, n)); }
    s.check();
    s.drain();
}
int main(int c, char** a) {
    return mc::main_(c, a, "C21", [](std::vector<mc::Scenario>& v, bool th) {
        auto add = [&](std::string n, std::function<void()> f) { v.push_back({n, f, 2}); };
        add("ops n=2 pri=2 depth=5", [=] { seq(2, 2, 5, true); });
        add("ops n=3 pri=2 depth=4", [=] { seq(3, 2, 4, true); });
        if (th) { add("ops n=3 pri=3 depth=5", [=] { seq(3, 3, 5, true); }); add("ops n=4 pri=2 depth=5", [=] { seq(4, 2, 5, false); }); }
        add("fill n=4 pri=4 moves=2", [=] { fill(4, 4, 2); });
        add("fill n=5 pri=3 moves=2", [=] { fill(5, 3, 2); });
        add("fill n=7 pri=3 moves=1", [=] { fill(7, 3, 1); });
        if (th) { add("fill n=7 pri=3 moves=2", [=] { fill(7, 3, 2); }); add("fill n=10 pri=2 moves=2", [=] { fill(10, 2, 2); }); add("fill n=6 pri=6 moves=1", [=] { fill(6, 6, 1); }); }
        for (int n = 2; n <= (th ? 64 : 32); n++) add("large n=" + std::to_string(n), [=] { large(n, 1); });
        add("large n=150", [=] { large(150, th ? 1 : 7); });
    });
}
