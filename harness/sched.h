// A deterministic scheduler for code compiled with -fsanitize=thread: the compiler calls a hook before every memory access and
// in place of every atomic operation; the hooks below (sched.cpp) are where one thread can give way to another.  Threads are
// coroutines of one operating system thread; futex calls and thread creation go to the scheduler.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <initializer_list>
#include <functional>
#include <vector>

namespace sched
{
    struct Options
    {
        uint64_t seed = 1;
        int mode = 0;            // 0: uniform, 1: few switches, 2: priorities, 3: one thread stalls at one point
        long limit = 400000;     // steps before the run counts as stuck
        std::vector<int> guide;  // thread order to follow first, one synchronising access each
    };
    enum Outcome { Done, Stuck };
    Outcome run(Options const & o, std::function<void()> body);  // body is thread 0
    void log(std::initializer_list<long> e);  // one event of the run
    void write_log(FILE * out);
    int self();
    void point();
    uint64_t random();
    void watch(void const * p, size_t n, std::function<void(int)> onWrite);  // writes by other threads into [p, p+n)
    void unwatch(void const * p);
    void sync_range(void const * p, size_t n);                               // accesses here advance the guide
    // sleeping and waking: by key, until woken or until the virtual time reaches the deadline (nanoseconds; -1: none)
    bool sleep_on(void const * key, long deadline = -1);                     // false: the deadline passed
    int wake(void const * key, int n);
    int spawn(std::function<void()> body);
    void join(int t);
    bool running();                                                          // in a run, outside the scheduler
    bool alive();                                                            // in a run
    void sync();                                                             // a synchronising access
    extern long now;                                                         // virtual nanoseconds
    extern bool jumps;                                                       // may the clock run ahead of runnable threads
    void on_step(std::function<void()> f);                                   // called at every point
    bool quiet();                                                            // every other thread sleeps
    struct Pause { Pause(); ~Pause(); bool was; };                           // no switches while it lives
    extern int cpus;
    extern long steps, switches;
}
