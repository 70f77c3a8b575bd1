// C10: super dense time over complete grids, and clocks driven by every sequence of intervals.
#include "simlab.h"
#include <iomanip>

template <class R> struct L {
    using T = adevs::sd_time<R>;
    static std::vector<R> reals(bool th);
    static std::vector<int> ints(bool th) { std::vector<int> k = {0, 1, -1, 2, 7, -3}; if (th) for (int x : {100, -100, 1000000, 3, 65536, 65537, 1000000007, -1000000000}) k.push_back(x); return k; }
    // the definition, on plain pairs
    struct P { R t; long k; };
    static int cmp(P a, P b) { return a.t < b.t ? -1 : b.t < a.t ? 1 : a.k < b.k ? -1 : a.k > b.k ? 1 : 0; }
    static P add(P a, P h) { return h.t == 0 ? P{a.t, a.k + h.k} : P{(R)(a.t + h.t), h.k}; }
    static P sub(P a, P b) { return a.t == b.t ? P{0, a.k - b.k} : P{(R)(a.t - b.t), a.k}; }
    static T mk(P p) { return T(p.t, (int)p.k); }
    static bool is(T const& x, P p) { return x.real() == p.t && x.integer() == (double)p.k; }
    static P choose(bool th) { auto r = reals(th); auto k = ints(th); R t = r[mc::choose(r.size())]; return {t, k[mc::choose(k.size())]}; }
    static std::string str(P p) { std::ostringstream o; o << std::setprecision(18) << "(" << p.t << "," << p.k << ")"; return o.str(); }
    static uint64_t h(P p) { return mc::mix(mc::hash_str(str(p)), sizeof(R)); }

    static void order(T const& a, T const& b, P x, P y) {
        int c = cmp(x, y);
        mc::compared();
        if ((a < b) != (c < 0) || (a > b) != (c > 0) || (a == b) != (c == 0) || (a != b) != (c != 0) || (a <= b) != (c <= 0) || (a >= b) != (c >= 0))
            mc::fail("comparing %s with %s is not lexicographic", str(x).c_str(), str(y).c_str());
    }
    static void pairs(bool th) {
        P x = choose(true), y = choose(true); T a = mk(x), b = mk(y); mc::step(); mc::state(mc::mix(h(x), h(y)));
        if (!is(a, x) || !is(b, y)) mc::fail("the parts of a time are not those it was made of");
        if (!is(T(), P{0, 0})) mc::fail("a default constructed time is not (0,0)");
        order(a, b, x, y);
        P s = add(x, y);
        T c = a + b; if (!is(c, s)) mc::fail("%s + %s is not %s", str(x).c_str(), str(y).c_str(), str(s).c_str());
        T d = a; T const& r = (d += b); if (!is(d, s) || !is(r, s)) mc::fail("%s += %s is not %s", str(x).c_str(), str(y).c_str(), str(s).c_str());
        P u = sub(x, y);
        T e = a - b; if (!is(e, u)) mc::fail("%s - %s is not %s", str(x).c_str(), str(y).c_str(), str(u).c_str());
        T f = a; f -= b; if (!is(f, u)) mc::fail("%s -= %s is not %s", str(x).c_str(), str(y).c_str(), str(u).c_str());
        if (!is(a, x) || !is(b, y)) mc::fail("an operator changes its operand");
        if (!(b < a)) { T g = a + (b - a); if (!(g == b) && exact(x, y)) mc::fail("a + (b - a) is not b for a=%s b=%s", str(x).c_str(), str(y).c_str()); }
        T g = a; g += g; if (!(g == a + a)) mc::fail("%s += itself", str(x).c_str());
        T q = a; q -= q; if (!is(q, P{0, 0})) mc::fail("%s -= itself", str(x).c_str());
        T cp(a), as; as = b; if (!is(cp, x) || !is(as, y)) mc::fail("copy or assignment of %s", str(x).c_str());
        // printed and read back
        for (int space = 0; space < 2; space++) {
            std::stringstream o; o << std::setprecision(21) << a << (space ? " " : "") << b;
            T p, q2; o >> p >> q2; if (!o || !(p == a) || !(q2 == b)) mc::fail("%s printed and read back", str(x).c_str());
        }
    }
    static bool exact(P x, P y) { R d = y.t - x.t; return (R)(x.t + d) == y.t && (R)(y.t - d) == x.t; }
    static void triples(bool th) {
        P x = choose(true), y = choose(true), z = choose(true); T a = mk(x), b = mk(y), c = mk(z); mc::step(); mc::compared();
        int n = (a < b) + (b < a) + (a == b); if (n != 1) mc::fail("trichotomy for %s %s", str(x).c_str(), str(y).c_str());
        if (a < b && b < c && !(a < c)) mc::fail("< is not transitive");
        if (a <= b && b <= c && !(a <= c)) mc::fail("<= is not transitive");
        auto ex = [](R u, R v) { R s = u + v; return (R)(s - u) == v && (R)(s - v) == u; };
        if (!ex(x.t, y.t) || !ex(x.t, z.t) || !ex(y.t, z.t)) { mc::count("order of sums not judged: a sum is rounded"); return; }
        // advancing is monotonic in the time and, for intervals, in the interval
        if (a <= b && !(a + c <= b + c)) mc::fail("advancing %s and %s by %s changes their order", str(x).c_str(), str(y).c_str(), str(z).c_str());
        T zero(0, 0);
        if (zero <= b && b <= c && !(a + b <= a + c)) mc::fail("advancing %s by %s leads beyond advancing by %s", str(x).c_str(), str(y).c_str(), str(z).c_str());
        if (zero <= b && !(a <= a + b)) mc::fail("advancing %s by %s goes back", str(x).c_str(), str(y).c_str());
        if (zero < b && !(a < a + b)) mc::fail("advancing %s by %s does not move", str(x).c_str(), str(y).c_str());
    }
    // a clock advanced by every sequence of intervals
    static void history(int depth) {
        std::vector<P> iv = {{0, 1}, {0, 0}, {1, 0}, {2, 3}, {0, 4}, {1, -1}, {5, 0}};
        T t = adevs_zero<T>(), start = t; P p{0, 0}; std::vector<std::pair<T, P>> past = {{t, p}};
        for (int d = 0; d < depth; d++) {
            P i = mc::pick(iv); mc::step();
            T n = t + mk(i); t += mk(i); p = add(p, i);
            if (!is(t, p) || !(n == t)) mc::fail("after %d steps the clock is not %s", d + 1, str(p).c_str());
            mc::state(h(p));
            for (auto& q : past) { order(q.first, t, q.second, p); if (q.first <= t && !(q.first + (t - q.first) == t)) mc::fail("the interval from %s to %s does not lead there", str(q.second).c_str(), str(p).c_str()); }
            past.push_back({t, p});
        }
    }
};
template <> std::vector<double> L<double>::reals(bool th) { std::vector<double> r = {0, 1, -1, 0.5, 3.25, 1e15, 5e-324, 0.1}; if (th) for (double x : {-0.5, 1e300, 1.0000000000000002, 2.2250738585072014e-308, 1.00000001, 2147483649.0, 0.00012345678901234567}) r.push_back(x); return r; }
template <> std::vector<int> L<int>::reals(bool th) { std::vector<int> r = {0, 1, -1, 2, 100, -7, 1000000000}; if (th) for (int x : {3, 999999999, -1000000000, 16777217, 65536}) r.push_back(x); return r; }
template <> std::vector<long> L<long>::reals(bool th) { std::vector<long> r = {0, 1, -1, 2, 100, -7, 4000000000000000000L}; if (th) for (long x : {3L, 5000000000L, -4000000000000000000L, 4294967296L, 4294967297L, 4000000000000000001L, 9007199254740993L}) r.push_back(x); return r; }
template <class R> void all(std::vector<mc::Scenario>& s, std::string n, bool th) {
    s.push_back({"all pairs, sd_time<" + n + ">", [th] { L<R>::pairs(th); }});
    s.push_back({"all triples, sd_time<" + n + ">", [th] { L<R>::triples(th); }});
    s.push_back({"all sequences of intervals, sd_time<" + n + ">", [th] { L<R>::history(th ? 7 : 6); }});
}
int main(int c, char** v) {
    return mc::main_(c, v, "C10", [](std::vector<mc::Scenario>& s, bool th) { all<double>(s, "double", th); all<int>(s, "int", th); all<long>(s, "long", th); });
}
