// Stateless, exhaustive explorer. A scenario is a function that asks choose(n)
// for every nondeterministic decision; the explorer re-runs it along every
// path of the resulting decision tree (depth first), so that on completion all
// decision sequences of the scenario have been executed on the real code.
#pragma once
#include <execinfo.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Prune {};           // this execution belongs to another shard or is cut
struct Violation { std::string msg; };

struct Node { int c, n; };

struct Scenario {
    std::string name;
    std::function<void()> run;
    bool whole = false;  // small: one process explores all of it
};

struct State {
    std::vector<Node> trail;
    size_t pos = 0, fixed = 0;
    bool replay = false;
    int shard = 0, nshards = 1;
    int cut = -1;
    std::vector<std::vector<Node>> prefixes;
    std::atomic<unsigned>* taken = nullptr;  // shared between the processes: next prefix per scenario
    int scen_index = 0;
    unsigned long execs = 0, steps = 0, choices = 0, compares = 0, scenarios_done = 0, pruned = 0;
    unsigned long maxdepth = 0;
    std::unordered_set<uint64_t> states;
    std::map<std::string, unsigned long> counters;
    std::vector<std::string> samples; std::string sampled;
    std::string note, scen;
    bool tracing = false;
    std::string tracebuf;
    bool thorough = false;
    char crashfile[512] = {0};
    volatile unsigned long exec_seq = 0;
    double hang_limit = 10;
    std::string prop;
    double t0 = 0, budget = 0;
    bool truncated = false;
};
inline State& S() { static State s; return s; }

inline double now() {
    timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

[[noreturn]] inline void fail(const char* fmt, ...) {
    char b[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    throw Violation{b};
}

struct Known {};  // this execution runs into a listed finding and ends there
// A violation that is identified by `id`: reported unless known-findings.json lists that id.
[[noreturn]] inline void finding(const char* id, const char* fmt, ...) {
    char b[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    const char* k = getenv("MC_KNOWN");
    std::string l = std::string(",") + (k ? k : "") + ",";
    if (l.find(std::string(",") + id + ",") != std::string::npos) {
        S().counters[std::string("known:") + id]++;
        throw Known{};
    }
    throw Violation{b};
}

[[noreturn]] inline void internal(const std::string& m) {
    fprintf(stderr, "INTERNAL: %s (scenario %s)\n", m.c_str(), S().scen.c_str());
    _exit(3);
}

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
    return h;
}
// The k-th alternative of n.
inline int choose(int n) {
    State& s = S();
    if (n <= 0) internal("choose(0)");
    s.choices++;
    if (s.pos < s.trail.size()) {
        Node& d = s.trail[s.pos];
        if (d.n != n) {
            if (s.replay) fail("replay diverges: width %d became %d at decision %zu", d.n, n, s.pos);
            internal("nondeterminism outside the explorer's control: width " + std::to_string(d.n) + " became " +
                     std::to_string(n) + " at decision " + std::to_string(s.pos));
        }
        return s.trail[s.pos++].c;
    }
    if (s.replay) {
        // past the end of a recorded trail: take the first alternative
        s.trail.push_back({0, n}); s.pos++;
        return 0;
    }
    if ((int)s.pos == s.cut) {  // enumerating prefixes: the work below this one is done later
        s.prefixes.push_back(std::vector<Node>(s.trail.begin(), s.trail.begin() + s.pos));
        throw Prune();
    }
    s.trail.push_back({0, n});
    s.pos++;
    if (s.pos > s.maxdepth) s.maxdepth = s.pos;
    return 0;
}
inline bool flip() { return choose(2) == 1; }
template <class T> inline T const& pick(std::vector<T> const& v) { return v[choose((int)v.size())]; }
// [lo,hi]
inline int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
inline std::vector<int> permutation(int n) {
    std::vector<int> p, r;
    for (int i = 0; i < n; i++) p.push_back(i);
    while (!p.empty()) { int k = choose((int)p.size()); r.push_back(p[k]); p.erase(p.begin() + k); }
    return r;
}

inline void step() { S().steps++; }
inline void compared() { S().compares++; }
inline void count(const char* k, unsigned long by = 1) { S().counters[k] += by; }
inline uint64_t hash_str(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ULL; return h; }
// record a state (fingerprint) reached by the exploration
inline void state(uint64_t fp) { if (S().states.size() < 4000000) S().states.insert(fp); }
inline bool tracing() { return S().tracing; }
inline void trace(const char* fmt, ...) {
    if (!S().tracing) return;
    char b[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    S().tracebuf += b; S().tracebuf += "\n";
}

// --- crash and hang reporting ---------------------------------------------
inline void write_trail_fd(int fd, const char* why) {
    State& s = S();
    static char buf[1 << 15]; size_t used = 0;
    auto flush = [&] { ssize_t r = write(fd, buf, used); (void)r; used = 0; };
    auto w = [&](const char* p) { size_t n = strlen(p); if (used + n > sizeof buf) flush(); if (n > sizeof buf) n = sizeof buf; memcpy(buf + used, p, n); used += n; };
    char b[64];
    w("scenario "); w(s.scen.c_str()); w("\nwhy "); w(why); w("\ntrail");
    for (size_t i = 0; i < s.pos && i < s.trail.size() && i < 20000; i++) { snprintf(b, sizeof b, " %d/%d", s.trail[i].c, s.trail[i].n); w(b); }
    w("\n"); flush();
}
inline void stop_others() { State& s = S(); if (s.taken) s.taken[(1 << 14) - 1].store(1); }
inline bool stopped() { State& s = S(); return s.taken && s.taken[(1 << 14) - 1].load(std::memory_order_relaxed); }
// of several threads only the first one reports
inline void only_once() { static std::atomic<bool> done; if (done.exchange(true)) for (;;) pause(); }
inline void on_signal(int sig) {
    only_once();
    State& s = S();
    stop_others();
    int fd = open(s.crashfile, O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (fd >= 0) {
        char b[128];
        snprintf(b, sizeof b, "signal %d (%s)", sig, sig == SIGABRT ? "abort/assertion" : sig == SIGSEGV ? "segmentation fault" : "crash");
        write_trail_fd(fd, b);
        close(fd);
    }
    _exit(42);
}
inline void on_tick(int) {
    static unsigned long last = ~0ul; static int n = 0;
    State& s = S();
    if (s.exec_seq != last) { last = s.exec_seq; n = 0; return; }
    if (++n * 0.5 >= s.hang_limit) {
        only_once();
        int fd = open(s.crashfile, O_CREAT | O_WRONLY | O_TRUNC, 0644);
        stop_others();
        if (fd >= 0) { write_trail_fd(fd, "hang: the execution does not end"); close(fd); }
        _exit(43);
    }
}

inline std::string json(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

inline std::string trail_str() {
    std::string r;
    State& s = S();
    for (size_t i = 0; i < s.pos && i < s.trail.size(); i++) r += (i ? " " : "") + std::to_string(s.trail[i].c) + "/" + std::to_string(s.trail[i].n);
    return r;
}

struct Found { std::string scen, trail, msg; };

// Depth first search below the current trail, whose first `fixed` decisions stay.
inline bool dfs(Scenario& sc, Found& f, size_t fixed, bool counted) {
    State& s = S();
    for (;;) {
        s.pos = 0; s.exec_seq = s.exec_seq + 1;
        bool pruned = false, sample = false;
        if (counted && s.samples.size() < 12 && s.sampled != sc.name && (s.samples.empty() || s.execs % 97 == 48)) { sample = true; s.tracing = true; s.tracebuf.clear(); }
        unsigned long st0 = s.steps, ch0 = s.choices, cm0 = s.compares;
        try { sc.run(); }
        catch (Prune&) { pruned = true; }
        catch (Known&) {}
        catch (Violation& v) { f = {sc.name, trail_str(), v.msg}; stop_others(); return false; }
        catch (std::exception& e) { f = {sc.name, trail_str(), std::string("unexpected exception: ") + e.what()}; stop_others(); return false; }
        if (sample) { s.tracing = false; if (!pruned) s.sampled = sc.name, s.samples.push_back(sc.name + ": decisions " + trail_str().substr(0, 400) + "\n" + s.tracebuf); }
        if (counted && !pruned) s.execs++;
        else { s.pruned++; s.steps = st0; s.choices = ch0; s.compares = cm0; }
        if (s.pos != s.trail.size()) internal("nondeterminism: an execution ended before its recorded decisions");
        if (s.budget > 0 && (s.exec_seq & 63) == 0 && now() - s.t0 > s.budget) { s.truncated = true; return true; }
        if ((s.exec_seq & 15) == 0 && stopped()) { s.truncated = true; return true; }  // another process found a violation
        while (s.trail.size() > fixed && s.trail.back().c + 1 >= s.trail.back().n) s.trail.pop_back();
        if (s.trail.size() <= fixed) return true;
        s.trail.back().c++;
    }
}
// Explore one scenario completely. With several processes, all of them enumerate
// the same decision prefixes and each takes the next one not yet taken.
inline bool explore(Scenario& sc, Found& f) {
    State& s = S();
    s.scen = sc.name; s.cut = -1; s.trail.clear();
    if (s.nshards == 1 || !s.taken) return dfs(sc, f, 0, true);
    if (sc.whole) return s.taken[s.scen_index].fetch_add(1) ? true : dfs(sc, f, 0, true);
    for (int d = 2;; d += d < 9 ? 1 : d < 20 ? 2 : 4) {
        s.trail.clear(); s.prefixes.clear(); s.cut = d;
        unsigned long e0 = s.execs, st0 = s.steps, ch0 = s.choices, cm0 = s.compares; auto c0 = s.counters;
        unsigned long q0 = s.exec_seq;
        bool ok = dfs(sc, f, 0, s.shard == 0);
        if (!ok) return false;
        if (s.truncated) return true;
        bool more = !s.prefixes.empty() && s.prefixes.size() < 400 && d < 200 && s.exec_seq - q0 < 8000;  // the same decision in every process
        if (more || s.shard != 0) { s.execs = e0; s.steps = st0; s.choices = ch0; s.compares = cm0; s.counters = c0; }
        if (!more) break;
    }
    s.cut = -1;
    auto list = std::move(s.prefixes);
    for (;;) {
        unsigned k = s.taken[s.scen_index].fetch_add(1);
        if (k >= list.size()) return true;
        s.trail = list[k];
        if (!dfs(sc, f, list[k].size(), true)) return false;
        if (s.truncated) return true;
    }
}

using Build = std::function<void(std::vector<Scenario>&, bool thorough)>;

// Entry point of every harness.
//   --tier quick|thorough --shard i/n --out FILE  [--replay FILE] [--budget seconds]
inline int main_(int argc, char** argv, const char* prop, Build build) {
    State& s = S();
    s.prop = prop;
    std::string out, replay, only;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--tier") s.thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--shard") { if (sscanf(argv[++i], "%d/%d", &s.shard, &s.nshards) != 2) internal("bad --shard"); }
        else if (a == "--share") {
            int fd = open(argv[++i], O_RDWR);
            void* m = fd < 0 ? MAP_FAILED : mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m == MAP_FAILED) internal("cannot map the shared file");
            s.taken = (std::atomic<unsigned>*)m;
        }
        else if (a == "--out") out = argv[++i];
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--budget") s.budget = atof(argv[++i]);
        else if (a == "--hang") s.hang_limit = atof(argv[++i]);
        else if (a == "--only") only = argv[++i];
        else internal("bad argument " + a);
    }
    snprintf(s.crashfile, sizeof s.crashfile, "%s.crash", out.empty() ? "/dev/null" : out.c_str());
    static char alt[1 << 16];
    stack_t st{}; st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, nullptr);
    for (int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) {
        struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK; sigaction(sg, &sa, nullptr);
    }
    struct sigaction sa{}; sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
    itimerval it{{0, 500000}, {0, 500000}}; setitimer(ITIMER_PROF, &it, nullptr);
    // a runaway allocation must end as a reported crash, not as the machine's problem
#ifndef MC_ASAN
    rlimit rl{6ul << 30, 6ul << 30}; setrlimit(RLIMIT_AS, &rl);
#endif
    std::vector<Scenario> scs;
    build(scs, s.thorough);
    s.t0 = now();
    Found f; bool ok = true;
    if (!replay.empty()) {
        FILE* fp = fopen(replay.c_str(), "r");
        if (!fp) internal("no replay file");
        char line[1 << 16]; std::string scen, trail;
        while (fgets(line, sizeof line, fp)) {
            if (!strncmp(line, "scenario ", 9)) { scen = line + 9; scen.erase(scen.find_last_not_of("\n") + 1); }
            if (!strncmp(line, "trail", 5)) trail = line + 5;
        }
        fclose(fp);
        for (auto& sc : scs) if (sc.name == scen) {
            s.replay = true; s.scen = scen; s.tracing = true;
            std::istringstream is(trail); std::string w;
            while (is >> w) { Node d; if (sscanf(w.c_str(), "%d/%d", &d.c, &d.n) == 2) s.trail.push_back(d); }
            s.exec_seq = 1;
            try { sc.run(); } catch (Prune&) {} catch (Known&) {} catch (Violation& v) { ok = false; f.msg = v.msg; }
            catch (std::exception& e) { ok = false; f.msg = std::string("unexpected exception: ") + e.what(); }
            fputs(s.tracebuf.c_str(), stdout);
            printf(ok ? "REPLAY: no violation\n" : "REPLAY: violation: %s\n", f.msg.c_str());
            fflush(stdout);
            _exit(ok ? 0 : 1);
        }
        internal("scenario of the replay file not found: " + scen);
    }
    std::map<std::string, unsigned long> per;
    for (auto& sc : scs) {
        s.scen_index = &sc - &scs[0];
        if (s.scen_index >= (1 << 14) - 1) internal("too many scenarios");
        if (!only.empty() && sc.name.find(only) == std::string::npos) continue;
        unsigned long before = s.execs;
        double ts = now();
        ok = explore(sc, f);
        per[sc.name] = s.execs - before;
        if (getenv("MC_VERBOSE") && s.shard == 0) fprintf(stderr, "%-50s %10lu execs %8.2fs\n", sc.name.c_str(), s.execs - before, now() - ts);
        if (!ok || s.truncated) break;
        s.scenarios_done++;
    }
    if (!out.empty()) {
        FILE* o = fopen(out.c_str(), "w");
        if (!o) internal("cannot write " + out);
        fprintf(o, "{\"ok\":%s,\"truncated\":%s,\"execs\":%lu,\"steps\":%lu,\"choices\":%lu,\"compares\":%lu,\"scenarios\":%lu,\"maxdepth\":%lu,\"wall\":%.3f",
                ok ? "true" : "false", s.truncated ? "true" : "false", s.execs, s.steps, s.choices, s.compares, s.scenarios_done, s.maxdepth, now() - s.t0);
        fprintf(o, ",\"per\":{"); bool first = true;
        for (auto& p : per) { fprintf(o, "%s%s:%lu", first ? "" : ",", json(p.first).c_str(), p.second); first = false; }
        fprintf(o, "},\"counters\":{"); first = true;
        for (auto& p : s.counters) { fprintf(o, "%s%s:%lu", first ? "" : ",", json(p.first).c_str(), p.second); first = false; }
        fprintf(o, "},\"samples\":["); first = true;
        for (auto& p : s.samples) { fprintf(o, "%s%s", first ? "" : ",", json(p.substr(0, 2500)).c_str()); first = false; }
        fprintf(o, "]");
        if (!ok) fprintf(o, ",\"found\":{\"scenario\":%s,\"trail\":%s,\"msg\":%s}", json(f.scen).c_str(), json(f.trail).c_str(), json(f.msg).c_str());
        fprintf(o, "}\n");
        fclose(o);
        std::string sf = out + ".states";
        FILE* b = fopen(sf.c_str(), "wb");
        for (uint64_t h : s.states) fwrite(&h, 8, 1, b);
        fclose(b);
    }
    if (!ok) fprintf(stderr, "violation in %s: %s\ntrail %s\n", f.scen.c_str(), f.msg.c_str(), f.trail.c_str());
    fflush(stdout); fflush(stderr);
    _exit(ok ? 0 : 1);
}

}  // namespace mc
