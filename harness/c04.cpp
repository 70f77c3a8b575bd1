// C04: the event queue (adevs::Schedule) against a plain list of (model, priority).
#include "mc.h"
#include "adevs/adevs.h"
using namespace adevs;

template <class T> struct TT;  // map small integers to times
template <> struct TT<double> { static double at(int i) { return 0.75 * i; } static const char* n() { return "double"; } };
template <> struct TT<int> { static int at(int i) { return i; } static const char* n() { return "int"; } };
template <> struct TT<long> { static long at(int i) { return 1000000007L * i; } static const char* n() { return "long"; } };
template <> struct TT<float> { static float at(int i) { return 0.5f * i; } static const char* n() { return "float"; } };
template <> struct TT<sd_time<double>> { static sd_time<double> at(int i) { return sd_time<double>(i / 2, i % 2); } static const char* n() { return "sd_time<double>"; } };
template <> struct TT<sd_time<int>> { static sd_time<int> at(int i) { return sd_time<int>(i / 3, i % 3); } static const char* n() { return "sd_time<int>"; } };
double double_fcmp::epsilon = 1e-6;
template <> struct TT<double_fcmp> { static double_fcmp at(int i) { return double_fcmp(1.0 * i); } static const char* n() { return "double_fcmp"; } };

template <class T> struct Dummy : Atomic<int, T> {
    void delta_int() {} void delta_ext(T, std::list<PinValue<int>> const&) {} void delta_conf(std::list<PinValue<int>> const&) {}
    void output_func(std::list<PinValue<int>>&) {} T ta() { return adevs_inf<T>(); }
};

// queue + plain reference. Priorities are small integers, -1 = infinity.
template <class T> struct Q {
    std::vector<Dummy<T>> m;
    Schedule<int, T> q;
    std::vector<int> pr;
    Q(int n, unsigned cap) : m(n), q(cap), pr(n, -1) {}
    Q(int n) : m(n), q(), pr(n, -1) {}
    void sched(int i, int p) {
        mc::trace("schedule m%d at %d", i, p);
        q.schedule(&m[i], p < 0 ? adevs_inf<T>() : TT<T>::at(p));
        pr[i] = p; mc::step();
    }
    int idx(Atomic<int, T>* a) { for (size_t i = 0; i < m.size(); i++) if (&m[i] == a) return (int)i; return -1; }
    int minp() { int b = -1; for (int p : pr) if (p >= 0 && (b < 0 || p < b)) b = p; return b; }
    void pop() {
        int b = minp();
        Atomic<int, T>* a = q.getMinimum();
        int i = idx(a);
        if (b >= 0 && (i < 0 || pr[i] != b)) mc::fail("the front of the queue is m%d, not a model with the minimum priority %d", i, b);
        mc::trace("removeMinimum (m%d)", i);
        q.removeMinimum();
        if (b >= 0) pr[i] = -1;
        mc::step();
    }
    void check() {
        mc::compared();
        int b = minp(), n = 0;
        for (int p : pr) n += p >= 0;
        T mp = q.minPriority();
        T want = b < 0 ? adevs_inf<T>() : TT<T>::at(b);
        if (!(mp == want)) mc::fail("minPriority is not the smallest scheduled priority (#%d)", b);
        if ((int)q.getSize() != n) mc::fail("getSize is %u, %d models are scheduled", q.getSize(), n);
        if (q.empty() != (n == 0)) mc::fail("empty() is %d with %d models scheduled", (int)q.empty(), n);
        Atomic<int, T>* a = q.getMinimum();
        if (n == 0) { if (a != nullptr) mc::fail("getMinimum of an empty queue is not null"); }
        else { int i = idx(a); if (i < 0 || pr[i] != b) mc::fail("getMinimum is m%d whose priority is not the minimum", i); }
        std::vector<int> seen(m.size(), 0);
        for (auto* x : q.visitImminent()) { int i = idx(x); if (i < 0) mc::fail("visitImminent lists an unknown model"); seen[i]++; }
        for (size_t i = 0; i < m.size(); i++) {
            int w = (b >= 0 && pr[i] == b) ? 1 : 0;
            if (seen[i] != w) mc::fail("m%zu appears %d times in the imminent set, expected %d", i, seen[i], w);
        }
        uint64_t h = m.size(); for (int p : pr) h = mc::mix(h, p + 7); mc::state(h);
    }
    void drain() {
        int guard = (int)m.size() + 2;
        while (minp() >= 0) { if (!guard--) mc::fail("drain does not end"); pop(); check(); }
        pop(); check();  // removing from an empty queue does nothing
    }
};

// all sequences of operations
template <class T> void seq(int n, int npri, int depth, unsigned cap) {
    Q<T> s(n, cap);
    s.check();
    for (int d = 0; d < depth; d++) {
        int o = mc::choose(n * (npri + 1) + 1);
        if (o == n * (npri + 1)) s.pop();
        else s.sched(o / (npri + 1), o % (npri + 1) - 1);
        s.check();
    }
    s.drain();
}
// fill with every weak order, then `k` arbitrary reschedules, then drain
template <class T> void fill(int n, int npri, int k, unsigned cap) {
    Q<T> s(n, cap);
    for (int i = 0; i < n; i++) s.sched(i, 2 * mc::choose(npri) + 1);
    s.check();
    for (int d = 0; d < k; d++) {
        int i = mc::choose(n), p = mc::choose(2 * npri + 2) - 1;
        s.sched(i, p);
        s.check();
    }
    s.drain();
}
static int pattern(int kind, int i, int n) {
    switch (kind) {
        case 0: return i; case 1: return n - i; case 2: return 5; case 3: return i % 2 ? i : 2 * n - i;
        case 4: return (i * 37) % n; case 5: return (i * 11) % 4; case 6: { int r = 0; for (int b = 0; b < 9; b++) if (i >> b & 1) r |= 1 << (8 - b); return r; }
        default: return i < n / 2 ? n - i : i;
    }
}
// large queues (several storage growths): every element moved to front / middle / tie / end / out
template <class T> void large(int n, unsigned cap, int stride) {
    int kind = mc::choose(8);
    int i = mc::choose((n + stride - 1) / stride) * stride;
    int what = mc::choose(6);
    Q<T> s = cap ? Q<T>(n, cap) : Q<T>(n);
    for (int j = 0; j < n; j++) s.sched(j, 2 + pattern(kind, j, n));
    s.check();
    if (what == 5) {  // half of them leave and come back in another order
        for (int j = i % 2; j < n; j += 2) s.sched(j, -1);
        s.check();
        for (int j = n - 1; j >= 0; j--) if (j % 2 == i % 2) s.sched(j, 2 + pattern((kind + 1) % 8, j, n));
    } else {
        int cur = s.pr[i];
        s.sched(i, what == 0 ? 0 : what == 1 ? n / 2 : what == 2 ? cur + 1 : what == 3 ? 5 * n : -1);
        s.check();
        s.sched(n - 1 - i, what == 0 ? 5 * n : what == 1 ? cur : what == 2 ? 0 : what == 3 ? 1 : 3);
    }
    s.check();
    s.drain();
    for (int j = 0; j < n; j += 7) s.sched(j, 3 + (j % 5));  // reuse after draining
    s.check();
}
template <class T> void all(std::vector<mc::Scenario>& v, bool th, bool main) {
    std::string t = TT<T>::n();
    auto add = [&](std::string n, std::function<void()> f) { v.push_back({t + "/" + n, f, 2}); };
    add("ops n=2 pri=2 depth=" + std::to_string(main ? 6 : 4), [=] { seq<T>(2, 2, main ? 6 : 4, 2); });
    if (main) add(th ? "ops n=3 pri=3 depth=6" : "ops n=3 pri=3 depth=5", [=] { seq<T>(3, 3, th ? 6 : 5, 2); });
    if (main && th) add("ops n=4 pri=2 depth=6", [=] { seq<T>(4, 2, 6, 3); });
    if (main && th) add("ops n=5 pri=4 depth=5", [=] { seq<T>(5, 4, 5, 3); });
    if (main) add("fill n=5 pri=5 moves=1", [=] { fill<T>(5, 5, 1, 2); });
    add("fill n=4 pri=3 moves=2", [=] { fill<T>(4, 3, 2, 2); });
    if (main) add("fill n=7 pri=3 moves=1", [=] { fill<T>(7, 3, 1, 3); });
    if (main && th) add("fill n=7 pri=3 moves=2", [=] { fill<T>(7, 3, 2, 3); });
    if (main && th) add("fill n=6 pri=6 moves=1", [=] { fill<T>(6, 6, 1, 4); });
    if (main && th) add("fill n=10 pri=2 moves=2", [=] { fill<T>(10, 2, 2, 4); });
    if (main && th) add("fill n=13 pri=2 moves=1", [=] { fill<T>(13, 2, 1, 2); });
    add("large n=30 cap=2", [=] { large<T>(30, 2, 1); });
    if (main) add("large n=130 cap=default", [=] { large<T>(130, 0, th ? 1 : 5); });
    if (main) add("large n=230 cap=default", [=] { large<T>(230, 0, th ? 3 : 23); });
    if (main && th) add("large n=450 cap=default", [=] { large<T>(450, 0, 25); });
    if (main) for (int n = 1; n <= (th ? 70 : 34); n++) add("large n=" + std::to_string(n) + " cap=2", [=] { large<T>(n, 2, 1); });
}
int main(int c, char** a) {
    return mc::main_(c, a, "C04", [](std::vector<mc::Scenario>& v, bool th) {
        all<double>(v, th, true); all<int>(v, th, th); all<sd_time<double>>(v, th, false); all<sd_time<int>>(v, th, false);
        all<long>(v, th, false); all<float>(v, th, false); all<double_fcmp>(v, th, false);
    });
}
