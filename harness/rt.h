// Controlled threads: what a body (compiled with -fsanitize=thread into a shared
// object) and the runtime (rt.cpp, the executable) know of each other.
#pragma once
#include <cstdint>
struct Body {
    const char* name;
    int threads;                 // up to 4, numbered from 1
    // All interleavings are explored if there are at most this many, otherwise those with
    // as many preemptive switches as keep within it (quick / thorough tier; 0: not explored)
    unsigned long limit[2];
    bool alone;                  // compare each thread's log with a run of that thread alone
    void (*setup)();             // before the threads start
    void (*run)(int tid);
    void (*finish)();            // after they have ended
};
extern "C" {
Body const* rt_bodies(int* n);                 // defined by the body
void rt_log(uint64_t);                         // to the log of the calling thread
void rt_fail(const char* fmt, ...);            // a violation (recorded; returns)
void rt_alloc_for(int tid);                    // what the main thread allocates from now on belongs to thread tid
}
