// C12: tolerance comparison over complete grids around the edge of the tolerance.
#include "simlab.h"
using F = adevs::double_fcmp;
static uint64_t bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
// the definition: equal iff |a-b| <= epsilon * 2^(binary exponent of the larger magnitude)
static bool definition(double a, double b, double eps, int& c) {
    int e; double big = std::fabs(a) > std::fabs(b) ? a : b; std::frexp(big, &e);
    __float128 diff = (__float128)a - (__float128)b, delta = (__float128)std::ldexp(1.0, 0) * (__float128)eps;
    for (int i = 0; i < e; i++) delta *= 2; for (int i = 0; i > e; i--) delta /= 2;
    c = diff > delta ? 1 : diff < -delta ? -1 : 0;
    // rounding of the difference or of a denormal tolerance must not matter
    if ((__float128)(double)delta != delta) { __float128 a2 = diff < 0 ? -diff : diff, u = std::numeric_limits<double>::denorm_min(); if (a2 > delta - u && a2 < delta + u) return false; }
    double d = a - b; if (std::isinf(d)) return true;
    return (__float128)d == diff || (diff > delta * 1.001 || diff < -delta * 1.001 || (diff < delta * 0.999 && diff > -delta * 0.999));
}
static double nudge(double x, int k) { for (; k > 0; k--) x = std::nextafter(x, INFINITY); for (; k < 0; k++) x = std::nextafter(x, -INFINITY); return x; }
static void pairs(bool th) {
    std::vector<double> base = {0, 1, -1, 1.5, 1.9999999999, 2, 3, 0.1, -0.3, 1e-10, 1e10, 123456.789, 1e300, -1e300, 1e-300, 5e-324, 2.2250738585072014e-308, 4, -8, 0.5};
    if (th) for (double x : {7.0, -16.0, 1e-5, 3e-310, 1e100, 65536.0, 0.25, -0.125}) base.push_back(x);
    std::vector<double> eps = {0, 1e-10, 1e-12, 1e-6, 1e-3, 0.125, 0.5, std::numeric_limits<double>::epsilon()};
    double e = eps[mc::choose(eps.size())];
    double x = base[mc::choose(base.size())], y;
    // the partner: another base value, or near x at a multiple of the tolerance give or take a few ulps
    int kind = mc::choose(2);
    if (kind == 0) { y = base[mc::choose(base.size())]; y = nudge(y, mc::choose(3) - 1); }
    else {
        int ex; std::frexp(x, &ex); double d = std::ldexp(e, ex);
        static const double mul[] = {0, 1, -1, 0.5, -0.5, 2, -2, 0.25, 1.5, -1.5, 4};
        y = nudge(x + mul[mc::choose(11)] * d, mc::choose(5) - 2);
    }
    if (std::isinf(y) || std::isnan(y)) return;
    mc::step(); mc::compared(); mc::state(mc::mix(mc::mix(bits(x), bits(y)), bits(e)));
    F::epsilon = e;
    int c; if (!definition(x, y, e, c)) { mc::count("skipped: the difference is not representable and lies at the edge"); return; }
    auto one = [&](double p, double q, int c) {
        F const a(p), b(q);
        int f = F::fcmp(p, q, e);
        if ((f > 0) - (f < 0) != c) mc::fail("fcmp(%.17g, %.17g, %g) is %d, by definition %d", p, q, e, f, c);
        if ((a < b) != (c < 0) || (a > b) != (c > 0) || (a == b) != (c == 0) || (a <= b) != (c <= 0) || (a >= b) != (c >= 0)) mc::fail("the comparisons of %.17g and %.17g with epsilon %g do not agree with the definition", p, q, e);
        if ((a < q) != (c < 0) || (a == q) != (c == 0)) mc::fail("comparing %.17g with the plain double %.17g (epsilon %g) differs", p, q, e);
        if ((a < b) + (a > b) + (a == b) != 1) mc::fail("%.17g and %.17g: not exactly one of <, ==, >", p, q);
        if (e == 0 && ((a < b) != (p < q) || (a == b) != (p == q) || (a > b) != (p > q))) mc::fail("epsilon zero is not plain comparison for %.17g and %.17g", p, q);
        if (c && (c < 0) != (p < q)) mc::fail("the order of %.17g and %.17g is not that of the numbers", p, q);
    };
    one(x, y, c); one(y, x, -c); 
    F a(x), b(y); F s = a + b, d = a - b, u = a, w = a; u += b; w -= b;
    if (bits((double)s) != bits(x + y) || bits((double)u) != bits(x + y) || bits((double)d) != bits(x - y) || bits((double)w) != bits(x - y)) mc::fail("arithmetic of %.17g and %.17g", x, y);
    F cp(a), as; as = b; if (bits((double)cp) != bits(x) || bits((double)as) != bits(y)) mc::fail("copy or assignment"); as = x; if (bits((double)as) != bits(x)) mc::fail("assignment of a plain double");
}
int main(int c, char** v) {
    return mc::main_(c, v, "C12", [](std::vector<mc::Scenario>& s, bool th) {
        s.push_back({"all pairs around the edge of the tolerance", [th] { pairs(th); }});
    });
}
