// C14 in one thread: identities under all sequences of creation, copy and assignment.
#include <map>
#include <set>
#include <unordered_map>
#include "adevs/adevs.h"
#include "mc.h"
using adevs::pin_t;
// slots hold pins; the reference gives each creation a number
static const int SLOTS = 4;
static void laws(std::vector<pin_t> const& p, std::vector<int> const& ref) {
    int n = p.size();
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        mc::compared();
        bool eq = ref[i] == ref[j];
        if ((p[i] == p[j]) != eq) mc::fail("pins %d and %d %s", i, j, eq ? "are copies but differ" : "were created apart but are the same");
        if ((p[i] != p[j]) == eq) mc::fail("!= of pins %d and %d contradicts ==", i, j);
        int less = p[i] < p[j], more = p[i] > p[j];
        if (less + more + eq != 1) mc::fail("pins %d and %d: <, == and > give %d %d %d", i, j, less, eq, more);
        if ((p[i] <= p[j]) != (less || eq) || (p[i] >= p[j]) != (more || eq)) mc::fail("<= or >= of pins %d and %d contradicts < and >", i, j);
        if (more != (p[j] < p[i])) mc::fail("> of pins %d and %d is not < turned around", i, j);
        for (int k = 0; k < n; k++) if (less && p[j] < p[k] && !(p[i] < p[k])) mc::fail("< is not transitive");
    }
    std::set<pin_t> s(p.begin(), p.end()); std::set<int> r(ref.begin(), ref.end());
    if (s.size() != r.size()) mc::fail("a set of %zu different pins has %zu elements", r.size(), s.size());
}
static void sequences(int depth, int start) {
    std::vector<pin_t> p(start); std::vector<int> ref; int next = 0;
    for (int i = 0; i < start; i++) ref.push_back(next++);
    std::vector<adevs::PinValue<int>> vals; std::vector<int> vref;
    for (int d = 0; d < depth; d++) {
        mc::step();
        int n = p.size();
        // create; copy i; assign i := j; swap; a value on pin i; the pin of a value
        int k = mc::choose(1 + n + n * n + (n > 1) + n + (int)vals.size() * 2 + 1);
        mc::trace("operation %d of %d pins", k, n);
        if (k == 0) { if (n < SLOTS) { p.push_back(pin_t()); ref.push_back(next++); } }
        else if ((k -= 1) < n) { pin_t c(p[k]); if (n < SLOTS) { p.push_back(c); ref.push_back(ref[k]); } else { p[0] = c; ref[0] = ref[k]; } }
        else if ((k -= n) < n * n) { pin_t const& r = (p[k / n] = p[k % n]); ref[k / n] = ref[k % n]; if (!(r == p[k / n])) mc::fail("an assignment does not return the pin assigned to"); }
        else if ((k -= n * n) < (n > 1)) { std::swap(p[0], p[1]); std::swap(ref[0], ref[1]); }
        else if ((k -= (n > 1)) < n) { vals.emplace_back(p[k], d); vref.push_back(ref[k]); }
        else if ((k -= n) < (int)vals.size()) { if (p.empty()) { p.push_back(vals[k].pin); ref.push_back(vref[k]); } else { p[0] = vals[k].pin; ref[0] = vref[k]; } }
        else if ((k -= vals.size()) < (int)vals.size()) { auto v = vals[k]; vals.push_back(v); vref.push_back(vref[k]); vals[0] = vals.back(); vref[0] = vref.back(); }
        else { adevs::PinValue<int> v; vals.push_back(v); vref.push_back(next++); }
        auto all = p; auto ar = ref;
        for (size_t i = 0; i < vals.size(); i++) { all.push_back(vals[i].pin); ar.push_back(vref[i]); }
        uint64_t h = n;
        { std::map<int, int> canon; for (int r : ar) { int c = canon.emplace(r, canon.size()).first->second; h = mc::mix(h, c); } }
        mc::state(mc::mix(h, vals.size()));
        laws(all, ar);
    }
}
// a long history: identities do not come around again
static void many(unsigned long n) {
    std::vector<pin_t> first(64);
    pin_t least = first[0], most = first[0];
    for (auto& p : first) { if (p < least) least = p; if (most < p) most = p; }
    unsigned long hits = 0;
    std::vector<pin_t> marks;
    for (unsigned long i = 0; i < n; i++) {
        pin_t p;
        if (!(p < least) && !(most < p)) for (auto& f : first) hits += f == p;
        if ((i & 0xfffffff) == 77) marks.push_back(p);
        if ((i & 0xffffff) == 0) { mc::S().exec_seq = mc::S().exec_seq + 1; if (mc::stopped()) return; }
    }
    mc::compared(); mc::count("pins created in a row", n);
    if (hits) mc::fail("after up to %lu pins %lu have the identity of one of the first 64", n, hits);
    std::vector<pin_t> all(first); std::vector<int> ref;
    all.insert(all.end(), marks.begin(), marks.end());
    for (int i = 0; i < 8; i++) all.push_back(pin_t());
    for (size_t i = 0; i < all.size(); i++) ref.push_back(i);
    laws(all, ref);
}
int main(int argc, char** argv) {
    return mc::main_(argc, argv, "C14", [](std::vector<mc::Scenario>& s, bool th) {
#ifdef LONG
        s.push_back({"4295 million pins", [] { many((1ul << 32) + 1000); }});
        return;
#endif
        s.push_back({"sequences", [th] { sequences(th ? 7 : 6, 0); }});
        s.push_back({"sequences from two pins", [th] { sequences(th ? 6 : 5, 2); }});
        s.push_back({"sequences from four pins", [th] { sequences(th ? 5 : 4, 4); }});
        s.push_back({"pins in a row", [] { many(1 + mc::choose(200) * 997); }});
    });
}
