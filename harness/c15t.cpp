// C15 with threads: simulations in threads of their own, without races and with the
// results they have alone.
#include "twosims.h"
#include "rt.h"
static Sim* sims[5];
template <int K1, int K2, int C> static void run(int t) {
    std::unique_ptr<Sim> s(make_sim(t == 1 ? K1 : K2, t, C));
    for (int k = 0; k < s->steps(); k++) s->call(k);
    for (auto v : s->log) rt_log(v);
}
// made by one thread, run by others
template <int K1, int K2, int C> static void setup() {
    for (int t = 1; t <= 3; t++) { rt_alloc_for(t); sims[t] = make_sim(t == 1 ? K1 : K2, t, C); sims[t]->call(0); }
    rt_alloc_for(0);
}
static void handed(int t) {
    for (int k = 1; k < sims[t]->steps(); k++) sims[t]->call(k);
    for (auto v : sims[t]->log) rt_log(v);
}
static void nothing() {}
#define OWN(a, b, c, q, th) {"own/" #a " + " #b, 2, {q, th}, true, nothing, run<a, b, c>, nothing}
#define OWN3(a, b, c, q, th) {"three/" #a " + " #b, 3, {q, th}, true, nothing, run<a, b, c>, nothing}
#define HANDED(a, b, c, q, th) {"handed over/" #a " + " #b, 2, {q, th}, true, setup<a, b, c>, handed, nothing}
#define ALL(a, q, th) OWN(a, a, 3, q, th), HANDED(a, a, 4, q, th), OWN3(a, a, 2, q / 4 + 1, th)
#define MIX(a, b, q, th) OWN(a, b, 3, q, th), OWN(b, a, 3, q / 4 + 1, th)
extern "C" Body const* rt_bodies(int* n) {
    static const Body b[] = {
        ALL(0, 24000, 100000), ALL(1, 24000, 100000), ALL(2, 24000, 100000), ALL(3, 24000, 100000), ALL(4, 24000, 100000), ALL(5, 24000, 100000), ALL(6, 24000, 100000), ALL(7, 24000, 100000),
        ALL(8, 5000, 30000), ALL(9, 5000, 30000), ALL(10, 5000, 30000), ALL(11, 5000, 30000), ALL(12, 5000, 30000), ALL(13, 5000, 30000), ALL(14, 8000, 30000),
        MIX(0, 2, 16000, 60000), MIX(1, 3, 16000, 60000), MIX(0, 8, 5000, 30000), MIX(8, 10, 5000, 30000), MIX(9, 13, 5000, 30000), MIX(11, 12, 5000, 30000), MIX(5, 6, 5000, 30000), MIX(14, 12, 5000, 30000),
    };
    *n = sizeof b / sizeof *b; return b;
}
