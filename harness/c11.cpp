// C11: constants and laws of every clock type, and the same models in all of them.
#include "simlab.h"
using namespace lab;
using U = unsigned long;

template <class T> std::vector<T> grid();
#define SC(TYPE, ...) template <> std::vector<TYPE> grid() { return {__VA_ARGS__}; }
SC(double, 0, 1, -1, 0.1, 1e300, -1e300, 5e-324, std::nextafter(std::numeric_limits<double>::max(), 0.0), -std::numeric_limits<double>::max())
SC(float, 0, 1, -1, 0.1f, 1e38f, -1e38f, 1e-45f, std::nextafter(std::numeric_limits<float>::max(), 0.0f))
SC(long double, 0, 1, -1, 0.1L, 1e4000L, -1e4000L, std::nextafter(std::numeric_limits<long double>::max(), 0.0L))
SC(int, 0, 1, -1, 1000, std::numeric_limits<int>::max() - 1, std::numeric_limits<int>::min())
SC(long, 0, 1, -1, 1000, std::numeric_limits<long>::max() - 1, std::numeric_limits<long>::min())
SC(adevs::double_fcmp, 0.0, 1.0, -1.0, 1e300, -1e300, 1e307)
using SD = adevs::sd_time<double>; using SI = adevs::sd_time<int>; using SL = adevs::sd_time<long>;
SC(SD, SD(0, 0), SD(0, 1), SD(0, -1), SD(1, 0), SD(-1, 3), SD(1e300, 0), SD(std::numeric_limits<double>::max(), std::numeric_limits<int>::max() - 1))
SC(SI, SI(0, 0), SI(0, 1), SI(0, -1), SI(1, 0), SI(-1, 3), SI(1000000, 0), SI(std::numeric_limits<int>::max(), std::numeric_limits<int>::max() - 1))
SC(SL, SL(0, 0), SL(0, 1), SL(0, -1), SL(1, 0), SL(-1, 3), SL(1000000, 0), SL(std::numeric_limits<long>::max(), std::numeric_limits<int>::max() - 1))

template <class T> void constants() {
    T inf = adevs_inf<T>(), zero = adevs_zero<T>(), sen = adevs_sentinel<T>(), eps = adevs_epsilon<T>();
    auto g = grid<T>();
    T x = g[mc::choose(g.size())];
    mc::step(); mc::compared(); mc::state(mc::hash_str(Clock<T>::name()) + mc::choose(1));
    if (!(x < inf) || inf < x || x == inf || !(inf > x) || inf <= x || !(inf >= x)) mc::fail("infinity is not larger than every other time");
    if (!(inf == inf) || inf < inf) mc::fail("infinity does not equal itself");
    if (!(sen < zero) || zero < sen || sen == zero) mc::fail("the sentinel is not smaller than zero");
    if (!(T() == zero)) mc::fail("a default constructed time is not zero");
    if (zero < zero || !(zero == zero) || !(g[0] == zero)) mc::fail("zero is not zero");
    if (Clock<T>::sd) {
        if (!(zero < zero + eps)) mc::fail("epsilon does not advance a super dense time");
        for (auto& y : g) if (zero < y && y < eps) mc::fail("there is a step smaller than epsilon");
    } else if (!(eps == zero)) mc::fail("epsilon of a plain time is not zero");
    T z = zero; if (!(z + eps == eps)) mc::fail("zero plus epsilon is not epsilon");
}
// the same models in type A and in type B; the decisions are made in A
template <class A> struct Log { std::vector<std::string> l; };
template <class T> std::vector<std::string> play(int n, std::vector<RT> const& menu, std::vector<std::vector<int>>& ta, std::vector<std::vector<int>>& out, std::vector<int>& envc, bool first, int depth, int dev) {
    World<U, T> w; w.dev = dev;
    std::vector<Spec> s(n);
    for (int i = 0; i < n; i++) { s[i].ta = menu; s[i].out = {{i}, {}, {20}}; if (i == 2) { s[i].mealy = true; s[i].out.clear(); s[i].rule = 3; s[i].mpins = {i}; } }
    w.make(s); w.add_all();
    for (int i = 0; i < n; i++) { w.setup({CPA, i, (i + 1) % n}); w.setup({CPA, 20, i}); }
    if (!first) { w.taM = ta; w.outM = out; w.dev = 0; }
    std::vector<std::string> log;
    w.start(0); w.listeners(1);
    T last = adevs_zero<T>();
    for (int d = 0; d < depth; d++) {
        RT tn = w.ref_next();
        T now = w.sim->nextEventTime();
        if (tn.inf != (now == adevs_inf<T>())) mc::fail("the next event time is%s infinite although%s", now == adevs_inf<T>() ? "" : " not", tn.inf ? " all models are passive" : " a model is active");
        if (now < last) mc::fail("the clock goes back");
        if (tn.inf) { log.push_back("passive"); break; }
        // environment: plain, injection at the time, injection at the last time
        int e; if (first) { e = w.dev > 0 ? mc::choose(3) : 0; if (e) w.dev--; envc.push_back(e); } else e = envc[d];
        Ins inj; RT t = tn;
        if (e) inj.push_back({20, mc::mix(5, d)});
        if (e == 2) { t = w.rtime; w.sim->setNextTime(Clock<T>::to(t)); now = Clock<T>::to(t); }
        w.cycle(t, inj);
        last = Clock<T>::to(w.rtime);
        if (Clock<T>::sd ? !(now < last) : last < now) mc::fail("the clock does not move forward");
        std::vector<std::string> l; for (auto& x : w.tr) { Tr y = x; if (!Clock<T>::sd) y.e.k = 0; l.push_back(str(y)); } std::sort(l.begin(), l.end());
        std::string z = t.str(); for (auto& x : l) z += "|" + x; log.push_back(z);
    }
    ta = w.taM; out = w.outM;
    return log;
}
template <class A> void same(int, std::vector<RT> const&, std::vector<std::vector<int>>&, std::vector<std::vector<int>>&, std::vector<int>&, std::vector<std::string> const&, int) {}
template <class A, class T, class... R> void same(int n, std::vector<RT> const& menu, std::vector<std::vector<int>>& ta, std::vector<std::vector<int>>& out, std::vector<int>& envc, std::vector<std::string> const& log, int depth) {
    auto l = play<T>(n, menu, ta, out, envc, false, depth, 0);
    mc::compared();
    if (l != log) mc::fail("the model behaves differently with the clocks %s and %s", Clock<A>::name(), Clock<T>::name());
    same<A, R...>(n, menu, ta, out, envc, log, depth);
}
template <class A, class... R> void types(int n, std::vector<RT> menu, int depth, int dev) {
    std::vector<std::vector<int>> ta, out; std::vector<int> envc;
    auto log = play<A>(n, menu, ta, out, envc, true, depth, dev);
    same<A, R...>(n, menu, ta, out, envc, log, depth);
}
int main(int c, char** v) {
    return mc::main_(c, v, "C11", [](std::vector<mc::Scenario>& s, bool th) {
        using F = adevs::double_fcmp;
        s.push_back({"constants: double", constants<double>}); s.push_back({"constants: float", constants<float>}); s.push_back({"constants: long double", constants<long double>});
        s.push_back({"constants: int", constants<int>}); s.push_back({"constants: long", constants<long>}); s.push_back({"constants: double_fcmp", constants<F>});
        s.push_back({"constants: sd_time<double>", constants<SD>}); s.push_back({"constants: sd_time<int>", constants<SI>}); s.push_back({"constants: sd_time<long>", constants<SL>});
        std::vector<RT> m = {D(1), D(0), D(2), INF(), D(100)}, k = {D(1), D(0), D(0, 1), D(0, 3), INF(), D(2, 1)};
        s.push_back({"3 models in 6 plain clocks, 4-5 cycles", [=] { types<double, float, long double, int, long, F>(3, m, 4 + th, 3); }});
        s.push_back({"2 models in 6 plain clocks, 2 cycles", [=] { types<double, float, long double, int, long, F>(2, {D(1), D(0), INF()}, 2, th ? 99 : 5); }});
        s.push_back({"3 models in 3 super dense clocks, 4-5 cycles", [=] { types<SD, SI, SL>(3, k, 4 + th, 3); }});
        s.push_back({"2 models in 3 super dense clocks, 2 cycles", [=] { types<SD, SI, SL>(2, {D(1), D(0), D(0, 1), INF()}, 2, th ? 99 : 5); }});
        s.push_back({"1 model in 6 plain clocks, 5 cycles", [=] { types<double, float, long double, int, long, F>(1, {D(1), D(3), INF()}, 5, th ? 99 : 6); }});
        s.push_back({"1 model in 3 super dense clocks, 5 cycles", [=] { types<SI, SL, SD>(1, {D(1), D(0), INF()}, 5, th ? 99 : 6); }});
        // times at which a narrower number would lose digits or overflow
        long b31 = (1L << 31) + 1, b40 = (1L << 40) + 1, b58 = (1L << 58) + 1;
        int wd = th ? 5 : 4;
        s.push_back({"2 models in wide clocks, times beyond 2^31", [=] { types<double, long double, long>(2, {D(1), D(b31), D(b40), D(2), INF()}, 4, wd); }});
        s.push_back({"2 models in wide clocks, times beyond 2^53", [=] { types<long, long double>(2, {D(1), D(b58), D(b40), D(2), INF()}, 4, wd); }});
        s.push_back({"2 models in narrow clocks, times up to 2^30", [=] { types<int, double, long>(2, {D(1), D(100000001), D((1 << 24) + 1), INF()}, 4, wd); }});
        s.push_back({"2 models in float, times up to 2^24", [=] { types<float, double, int>(2, {D(1), D((1 << 21) + 1), D((1 << 20) + 3), INF()}, 4, wd); }});
        s.push_back({"2 models in wide super dense clocks", [=] { types<SD, SL>(2, {D(1), D(b31), D(b40), D(0, 1), D(b40, 1)}, 4, wd); }});
        s.push_back({"2 models in sd_time<long>, times beyond 2^53", [=] { types<SL>(2, {D(1), D(b58), D(b40), D(0, 1), D(b40, 1)}, 4, wd); }});
        s.push_back({"2 models in 3 super dense clocks, many instants at one time", [=] { types<SD, SI, SL>(2, {D(1), D(0, 70000), D(0, 1), D(0, 400000000), D(1, 40000), D(0, 256)}, 4, wd); }});
    });
}
