// C15 in one thread: two simulations whose calls are interleaved in every way, also
// from inside callbacks, against each of them alone.
#include "twosims.h"
#include "mc.h"
static std::map<std::array<int, 3>, std::vector<uint64_t>>& cache() { static std::map<std::array<int, 3>, std::vector<uint64_t>> c; return c; }
static std::vector<uint64_t> const& alone(int kind, int variant, int cycles) {
    auto& c = cache(); std::array<int, 3> key{kind, variant, cycles};
    auto i = c.find(key);
    if (i == c.end()) {
        std::unique_ptr<Sim> s(make_sim(kind, variant, cycles));
        for (int k = 0; k < s->steps(); k++) s->call(k);
        i = c.emplace(key, s->log).first;
    }
    return i->second;
}
static void same(Sim& s, std::vector<uint64_t> const& want, const char* who) {
    mc::compared();
    size_t k = 0; while (k < want.size() && k < s.log.size() && want[k] == s.log[k]) k++;
    if (k < want.size() || k < s.log.size()) mc::fail("the %s simulation differs from itself alone from entry %zu of its log on (%zu entries, alone %zu)", who, k, s.log.size(), want.size());
    mc::count("log entries compared", want.size());
}
static void interleaved(int k1, int k2, int c1, int c2) {
    auto w1 = alone(k1, 0, c1), w2 = alone(k2, 1, c2);
    std::unique_ptr<Sim> a(make_sim(k1, 0, c1)), b(make_sim(k2, 1, c2));
    int i = 0, j = 0;
    uint64_t order = 0;
    while (i < a->steps() || j < b->steps()) {
        int k = i == a->steps() ? 1 : j == b->steps() ? 0 : mc::choose(2);
        mc::step(); order = order * 2 + k;
        mc::trace("call %d of simulation %d", k ? j : i, k + 1);
        if (k) b->call(j++); else a->call(i++);
        mc::state(mc::mix(mc::mix(i, j), k1 * 100 + k2));
    }
    same(*a, w1, "first"); same(*b, w2, "second");
}
// the second runs inside callbacks of the first
static void nested(int k1, int k2, int c1, int c2, int bursts, int skip) {
    auto w1 = alone(k1, 0, c1), w2 = alone(k2, 1, c2);
    std::unique_ptr<Sim> a(make_sim(k1, 0, c1)), b(make_sim(k2, 1, c2));
    int j = 0, n = 0; bool inside = false, pruned = false;
    a->at_callback = [&] {
        if (inside || j == b->steps() || bursts == 0 || n++ % skip) return;
        // callbacks may be called by the libraries of the solvers, which no exception may leave
        int k = 0;
        try { k = mc::choose(std::min(3, b->steps() - j) + 1); } catch (mc::Prune&) { bursts = 0; pruned = true; }
        if (!k) return;
        bursts--; inside = true;
        mc::trace("callback %d of simulation 1: calls %d-%d of simulation 2", n, j, j + k - 1);
        while (k--) { mc::step(); b->call(j++); }
        inside = false;
        mc::state(mc::mix(mc::mix(n, j), 7 + k1 * 100 + k2));
    };
    for (int i = 0; i < a->steps(); i++) a->call(i);
    if (pruned) throw mc::Prune();
    while (j < b->steps()) b->call(j++);
    same(*a, w1, "outer"); same(*b, w2, "inner");
}
// One simulation fails (a loop of Mealy models, a negative time advance, while output or
// state is computed) and is given up. The other one, which has or gets nothing from it but
// perhaps its memory, is not affected.
struct Loop {
    using A = adevs::Atomic<int>; using PV = adevs::PinValue<int>; using Xb = std::list<PV>;
    struct Me : adevs::MealyAtomic<int> {
        adevs::pin_t in, out; bool first; Me(bool f) : first(f) {}
        // the memory of a model of this simulation is likely to become that of a model of the other
        static void* operator new(size_t) { return ::operator new(std::max(sizeof(Me), sizeof(Discrete<double>::Mealy))); }
        static void operator delete(void* p) { ::operator delete(p); }
        double ta() override { return first ? 1 : adevs_inf<double>(); }
        void delta_int() override {} void delta_ext(double, Xb const&) override {} void delta_conf(Xb const&) override {}
        void output_func(Xb& y) override { y.push_back(PV(out, 1)); }
        void external_output_func(double, Xb const&, Xb& y) override { y.push_back(PV(out, 2)); }
        void confluent_output_func(Xb const&, Xb& y) override { y.push_back(PV(out, 3)); }
    };
    struct Neg : A {
        int n = 0; int when; adevs::pin_t out; Neg(int w) : when(w) {}
        double ta() override { return n >= when ? -1 : 1; }
        void delta_int() override { n++; } void delta_ext(double, Xb const&) override { n++; } void delta_conf(Xb const&) override { n++; }
        void output_func(Xb& y) override { y.push_back(PV(out, 1)); }
    };
    bool failed = false;
    std::vector<std::shared_ptr<A>> m; std::shared_ptr<adevs::Graph<int>> g = std::make_shared<adevs::Graph<int>>(); std::unique_ptr<adevs::Simulator<int>> sim;
    // loop: 0 none (negative time advance), else the number of Mealy models in the loop
    Loop(int loop) {
        std::vector<std::shared_ptr<Me>> v;
        for (int i = 0; i < loop; i++) { v.push_back(std::shared_ptr<Me>(new Me(i == 0))); m.push_back(v[i]); g->add_atomic(v[i]); g->connect(v[i]->in, v[i]); }
        for (int i = 0; i < loop; i++) g->connect(v[i]->out, v[(i + 1) % loop]->in);
        for (int i = 0; i < 2; i++) { auto n = std::make_shared<Neg>(loop ? 9 : 1 + i); m.push_back(n); g->add_atomic(n); if (loop) g->connect(n->out, v[0]->in); }
        sim.reset(new adevs::Simulator<int>(g));
    }
    void step() { if (failed) return; try { sim->execNextEvent(); } catch (adevs::exception&) { failed = true; } }
};
static void after_failure(int kind, int c) {
    auto w = alone(kind, 1, c);
    std::unique_ptr<Sim> b(make_sim(kind, 1, c));
    int loop = mc::choose(4), at = mc::choose(b->steps()), gone = at + mc::choose(2); bool before = mc::flip();
    std::unique_ptr<Loop> l;
    for (int k = 0; k < b->steps(); k++) {
        if (k == at) { l.reset(new Loop(loop)); if (before) { l->step(); l->step(); } }
        if (l && !before) l->step();
        if (k == gone) { if (l) for (int i = 0; i < 3; i++) l->step(); if (l && !l->failed) mc::fail("the simulation that must fail did not"); l.reset(); }
        b->call(k); mc::step();
        mc::state(mc::mix(mc::mix(mc::mix(k, at), gone * 2 + before), kind * 100 + loop));
    }
    same(*b, w, "other");
}
int main(int argc, char** argv) {
    return mc::main_(argc, argv, "C15", [](std::vector<mc::Scenario>& s, bool th) {
        for (int i = 0; i < KINDS; i++) s.push_back({std::string("after a failure/") + kind_name(i), [=] { after_failure(i, th ? 6 : 5); }, true});
        for (int i = 0; i < KINDS; i++) for (int j = 0; j < KINDS; j++) {
            bool near = i == j || (i < 4 && j < 4) || (i >= 8 && i < 14 && j >= 8 && j < 14);
            int c = (near ? 5 : 3) + (th ? 1 : 0), slow = i >= 8 || j >= 8;
            std::string n = std::string(kind_name(i)) + " + " + kind_name(j);
            if (i <= j) s.push_back({"calls/" + n, [=] { interleaved(i, j, c - (slow && !th), c - (slow && !th)); }, true});
            s.push_back({"nested/" + n, [=] { nested(i, j, near ? 5 : 4, near ? 4 : 2, near ? 2 : th ? 2 : 1, i >= 8 && !th ? 3 : 1); }, true});
        }
    });
}
