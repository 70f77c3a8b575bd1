// C14 with threads: every pin differs from all others, whatever the interleaving.
#include "adevs/adevs.h"
#include <list>
#include <map>
#include <vector>
#include "rt.h"
using adevs::pin_t;
static std::vector<pin_t>* made[5];
static std::vector<pin_t>* copies[5];
static std::vector<pin_t>* before;
static const int MAXT = 4;
static pin_t global_pin;
static void setup() {
    before = new std::vector<pin_t>(3);
    before->push_back(global_pin);
    for (int i = 1; i <= MAXT; i++) { rt_alloc_for(i); made[i] = new std::vector<pin_t>; made[i]->reserve(40); copies[i] = new std::vector<pin_t>; copies[i]->reserve(40); }
    rt_alloc_for(0);
}
template <int N> static void creates(int t) { for (int i = 0; i < N; i++) made[t]->push_back(pin_t()); }
static void keep(int t, pin_t const& p) { made[t]->push_back(p); }
// pins made in the ways that the library and its users do
template <int WAYS> static void ways(int t) {
    if (WAYS & 1) { adevs::PinValue<int> v; keep(t, v.pin); v.pin = (*made[t])[0]; copies[t]->push_back(v.pin); }
    if (WAYS & 2) { pin_t a[2]; keep(t, a[0]); keep(t, a[1]); pin_t c(a[1]); copies[t]->push_back(c); c = a[0]; copies[t]->push_back(c); }
    if (WAYS & 4) { std::vector<pin_t> v(1); keep(t, v[0]); v.push_back(v[0]); copies[t]->push_back(v[1]); v.insert(v.begin(), v[0]); copies[t]->push_back(v[2]); }
    if (WAYS & 8) { std::map<int, pin_t> m; keep(t, m[3]); copies[t]->push_back(m[3]); pin_t other = m[3]; std::swap(other, m[3]); copies[t]->push_back(other); }
    if (WAYS & 16) { adevs::PinValue<int> v((*before)[0], 3); adevs::PinValue<int> w(v); v = w; if (!(v.pin == (*before)[0]) || !(w.pin == v.pin)) rt_fail("a copied value lost its pin"); }
}
// copies of pins of other threads
static void copying(int t) {
    if (t == 1) { creates<3>(1); return; }
    pin_t p = (*before)[0]; copies[t]->push_back(p);
    keep(t, pin_t()); pin_t q((*made[t])[0]); p = q; copies[t]->push_back(p); keep(t, pin_t());
}
static void unequal(pin_t const& a, pin_t const& b, const char* what) {
    if (a == b || !(a != b)) rt_fail("%s are the same", what);
    if ((a < b) == (b < a) || (a < b) != (b > a) || (a <= b) != (a < b) || (a >= b) != (b < a)) rt_fail("%s are not ordered", what);
}
static void finish() {
    std::vector<pin_t> all(*before), after(2);
    for (int i = 1; i <= MAXT; i++) all.insert(all.end(), made[i]->begin(), made[i]->end());
    all.insert(all.end(), after.begin(), after.end());
    for (size_t i = 0; i < all.size(); i++) for (size_t j = 0; j < i; j++) unequal(all[i], all[j], "two pins");
    for (int i = 1; i <= MAXT; i++) for (auto& c : *copies[i]) { int n = 0; for (auto& p : all) n += p == c; if (n != 1) rt_fail("a copy equals %d pins", n); }
}
extern "C" Body const* rt_bodies(int* n) {
    static const Body b[] = {
        {"2 threads, 1 pin each", 2, {4000, 60000}, false, setup, creates<1>, finish},
        {"2 threads, 4 pins each", 2, {4000, 60000}, false, setup, creates<4>, finish},
        {"2 threads, 7 pins each", 2, {4000, 60000}, false, setup, creates<7>, finish},
        {"2 threads, 9 pins each", 2, {0, 60000}, false, setup, creates<9>, finish},
        {"2 threads, 30 pins each", 2, {4000, 60000}, false, setup, creates<30>, finish},
        {"3 threads, 2 pins each", 3, {4000, 60000}, false, setup, creates<2>, finish},
        {"3 threads, 3 pins each", 3, {4000, 60000}, false, setup, creates<3>, finish},
        {"3 threads, 4 pins each", 3, {35000, 60000}, false, setup, creates<4>, finish},
        {"4 threads, 2 pins each", 4, {4000, 60000}, false, setup, creates<2>, finish},
        {"4 threads, 3 pins each", 4, {4000, 400000}, false, setup, creates<3>, finish},
        {"2 threads, all ways", 2, {4000, 60000}, false, setup, ways<31>, finish},
        {"2 threads, values and arrays", 2, {4000, 60000}, false, setup, ways<19>, finish},
        {"3 threads, values and maps", 3, {4000, 60000}, false, setup, ways<25>, finish},
        {"2 threads, copying", 2, {4000, 60000}, false, setup, copying, finish},
        {"3 threads, copying", 3, {4000, 60000}, false, setup, copying, finish},
    };
    *n = sizeof b / sizeof *b; return b;
}
