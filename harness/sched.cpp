#include "sched.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <cstdarg>
#include <linux/futex.h>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <ucontext.h>

namespace
{
    struct Thread
    {
        ucontext_t ctx;
        std::unique_ptr<char[]> stack;
        std::function<void()> body;
        void const * futex = nullptr;   // asleep on this address
        long deadline = -1;             // until this virtual time at the latest
        bool late = false;
        bool done = false;
        double prio = 0;
    };
    struct Watch { char const * p; size_t n; std::function<void(int)> f; };
    std::vector<std::unique_ptr<Thread>> threads;
    std::vector<Watch> watches;
    char const * syncP = nullptr;
    size_t syncN = 0;
    std::function<void()> stepHook;
    ucontext_t mainCtx;
    sched::Options opt;
    int cur = -1;
    size_t guideAt = 0;
    bool active = false, busy = false, stuck = false;
    uint64_t rng = 1;
    long sinceSwitch = 0, stallUntil = -1;
    int stalled = -1;

    struct Busy   // no switching inside the scheduler, whichever copy of a template the linker kept
    {
        bool was = busy;
        Busy() { busy = true; }
        ~Busy() { busy = was; }
    };

    bool runnable(int t) { return ! threads[t]->done && ! threads[t]->futex; }

    void to(int t)
    {
        if (t == cur)
            return;
        int from = cur;
        cur = t;
        sinceSwitch = 0;
        ++sched::switches;
        swapcontext(&threads[from]->ctx, &threads[t]->ctx);
    }

    // the sleeper with the earliest deadline wakes up at it
    bool elapse()
    {
        int best = -1;
        for (int t = 0; t < (int)threads.size(); ++t)
            if (threads[t]->futex && threads[t]->deadline >= 0 && (best < 0 || threads[t]->deadline < threads[best]->deadline))
                best = t;
        if (best < 0)
            return false;
        if (threads[best]->deadline > sched::now)
            sched::now = threads[best]->deadline;
        threads[best]->futex = nullptr;
        threads[best]->late = true;
        return true;
    }

    int pick1(bool mustLeave);
    int pick(bool mustLeave)
    {
        int n = pick1(mustLeave);
        if (n < 0 && ! runnable(cur) && elapse())
            n = pick1(false);
        return n;
    }

    int pick1(bool mustLeave)
    {
        int cand[64], n = 0;
        for (int t = 0; t < (int)threads.size(); ++t)
            if (runnable(t) && ! (mustLeave && t == cur))
                cand[n++] = t;
        if (n == 0)
            return -1;
        if (n > 1 && stalled >= 0 && sched::steps < stallUntil)
        {
            int m = 0;
            for (int i = 0; i < n; ++i)
                if (cand[i] != stalled)
                    cand[m++] = cand[i];
            if (m)
                n = m;
        }
        if (opt.mode == 2)
        {
            int best = cand[0];
            for (int i = 1; i < n; ++i)
                if (threads[cand[i]]->prio > threads[best]->prio)
                    best = cand[i];
            return best;
        }
        return cand[sched::random() % n];
    }

    __attribute__((noinline)) void giveUp()
    {
        if (getenv("SCHED_ABORT"))   // to look at it in a debugger
        {
            for (size_t t = 0; t < threads.size(); ++t)
                fprintf(stderr, "thread %d (%p): %s on %p until %ld\n", (int)t, (void *)threads[t].get(), threads[t]->done ? "done" : threads[t]->futex ? "asleep" : "ready", threads[t]->futex, threads[t]->deadline);
            abort();
        }
        stuck = true;
        setcontext(&mainCtx);
    }

    void entry()
    {
        Thread & t = *threads[cur];
        t.body();
        t.done = true;
        if (cur == 0)
            setcontext(&mainCtx);
        sched::wake(&t, 1000);
        int n = pick(true);
        if (n < 0)
            giveUp();
        cur = n;
        setcontext(&threads[n]->ctx);
    }

    void step(bool sync)
    {
        if (! active || busy)
            return;
        busy = true;
        if (stepHook)
            stepHook();
        busy = false;
        if (++sched::steps > opt.limit)
            giveUp();
        sched::now += 100;
        if (sched::jumps && sched::random() % 300 == 0)
            elapse();
        ++sinceSwitch;
        if (sinceSwitch > 2000)
            guideAt = opt.guide.size();   // the code does not follow the guide
        if (guideAt < opt.guide.size())
        {
            // the guide names who makes the next synchronising access
            if (! sync)
                return;
            Busy b;
            int t = opt.guide[guideAt];
            while (guideAt < opt.guide.size() && (t >= (int)threads.size() || ! runnable(t)))
                t = ++guideAt < opt.guide.size() ? opt.guide[guideAt] : -1;
            if (guideAt < opt.guide.size())
            {
                ++guideAt;
                busy = b.was;
                if (t != cur)
                    to(t);
                return;
            }
        }
        bool fair = sched::steps > opt.limit / 2;
        int n = cur;
        if (fair || sinceSwitch > 300)
        {
            if (opt.mode == 2)   // a spinning thread loses its priority
                threads[cur]->prio = -(double)sched::steps;
            n = fair && opt.mode != 2 ? pick(false) : pick(sinceSwitch > 300);
        }
        else if (opt.mode == 0 || opt.mode == 3)
        {
            if (opt.mode == 3 && stalled < 0 && sync && sched::random() % 40 == 0)
            {
                stalled = cur;   // this thread stops here for a long while
                stallUntil = sched::steps + 50 + (long)(sched::random() % 3000);
                n = pick(true);
            }
            else if (sched::random() % (sync ? 3 : 6) == 0)
                n = pick(false);
            if (opt.mode == 3 && stalled >= 0 && sched::steps > stallUntil && sched::random() % 200 == 0)
                stalled = -1;
        }
        else if (opt.mode == 1)
        {
            if (sched::random() % 60 == 0)
                n = pick(false);
        }
        else if (sched::random() % 40 == 0)
        {
            threads[cur]->prio = (double)(sched::random() % 1000) - 500;
            n = pick(false);
        }
        if (n >= 0 && n != cur)
            to(n);
    }

    inline void access(void const * p, size_t n, bool write, bool sync)
    {
        if (! active || busy)
            return;
        if (write)
            for (auto & w : watches)
                if ((char const *)p < w.p + w.n && w.p < (char const *)p + n)
                {
                    busy = true;
                    w.f(cur);
                    busy = false;
                }
        sync = sync || ((char const *)p >= syncP && (char const *)p < syncP + syncN);
        step(sync);
    }
}

namespace sched
{
    int cpus = 2;
    long steps = 0, switches = 0, now = 0;
    bool jumps = false;
    int self() { return cur; }
    uint64_t random()
    {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        return rng * 0x2545F4914F6CDD1DULL >> 11;
    }
    Pause::Pause() : was(busy) { busy = true; }
    Pause::~Pause() { busy = was; }
    void point() { step(false); }
    static std::vector<std::vector<long>> events;
    void log(std::initializer_list<long> e)
    {
        Busy b;
        events.emplace_back(e);
    }
    void write_log(FILE * out)
    {
        for (size_t k = 0; k < events.size(); ++k)
        {
            fprintf(out, k ? ",[" : "[");
            for (size_t j = 0; j < events[k].size(); ++j)
                fprintf(out, j ? ",%ld" : "%ld", events[k][j]);
            fprintf(out, "]");
        }
        events.clear();
    }
    void watch(void const * p, size_t n, std::function<void(int)> f) { Busy b; watches.push_back({ (char const *)p, n, f }); }
    void unwatch(void const * p)
    {
        Busy b;
        for (size_t i = 0; i < watches.size(); ++i)
            if (watches[i].p == (char const *)p)
            {
                watches.erase(watches.begin() + i);
                --i;
            }
    }
    void sync_range(void const * p, size_t n) { syncP = (char const *)p, syncN = n; }
    void on_step(std::function<void()> f) { stepHook = f; }
    bool quiet()
    {
        Busy b;
        for (size_t t = 0; t < threads.size(); ++t)
            if ((int)t != cur && runnable((int)t))
                return false;
        return true;
    }
    static int add(std::function<void()> body)
    {
        auto t = std::make_unique<Thread>();
        t->stack.reset(new char[256 * 1024]);
        t->body = body;
        t->prio = (double)(random() % 1000);
        getcontext(&t->ctx);
        t->ctx.uc_stack.ss_sp = t->stack.get();
        t->ctx.uc_stack.ss_size = 256 * 1024;
        t->ctx.uc_link = nullptr;
        makecontext(&t->ctx, (void (*)())entry, 0);
        threads.push_back(std::move(t));
        return (int)threads.size() - 1;
    }
    bool sleep_on(void const * key, long deadline)
    {
        Thread & t = *threads[cur];
        t.futex = key;
        t.deadline = deadline;
        t.late = false;
        int n = pick(true);
        if (n < 0)
            giveUp();
        to(n);
        t.deadline = -1;
        return ! t.late;
    }
    int wake(void const * key, int n)
    {
        Busy b;
        std::vector<int> sleepers;
        for (size_t t = 0; t < threads.size(); ++t)
            if (threads[t]->futex == key)
                sleepers.push_back((int)t);
        int woken = 0;
        while (! sleepers.empty() && woken < n)
        {
            size_t i = random() % sleepers.size();
            threads[sleepers[i]]->futex = nullptr;
            sleepers.erase(sleepers.begin() + i);
            ++woken;
        }
        return woken;
    }
    int spawn(std::function<void()> body) { Busy b; return add(body); }
    void join(int t)
    {
        while (! threads[t]->done)
            sleep_on(threads[t].get());
    }
    bool running() { return active && ! busy; }
    bool alive() { return active; }
    void sync() { step(true); }
    Outcome run(Options const & o, std::function<void()> body)
    {
        opt = o;
        rng = o.seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
        for (int i = 0; i < 4; ++i)
            random();
        threads.clear();
        watches.clear();
        syncN = 0;
        guideAt = 0;
        steps = switches = sinceSwitch = 0;
        now = 1000000000;
        stalled = -1;
        stallUntil = -1;
        stuck = false;
        add(body);
        cur = 0;
        volatile bool back = false;
        getcontext(&mainCtx);
        if (! back)
        {
            back = true;
            active = true;
            setcontext(&threads[0]->ctx);
        }
        active = false;
        busy = false;
        return stuck ? Stuck : Done;
    }
}

// ---- the compiler's hooks
#define R(n) \
    void __tsan_read##n(void * p) { access(p, n, false, false); } \
    void __tsan_write##n(void * p) { access(p, n, true, false); } \
    void __tsan_volatile_read##n(void * p) { access(p, n, false, true); } \
    void __tsan_volatile_write##n(void * p) { access(p, n, true, true); } \
    void __tsan_unaligned_read##n(void * p) { access(p, n, false, false); } \
    void __tsan_unaligned_write##n(void * p) { access(p, n, true, false); } \
    void __tsan_unaligned_volatile_read##n(void * p) { access(p, n, false, true); } \
    void __tsan_unaligned_volatile_write##n(void * p) { access(p, n, true, true); }
#define RMW(b, T, name, fn) \
    T __tsan_atomic##b##_##name(volatile T * p, T v, int) \
    { \
        access((void *)p, sizeof(T), true, true); \
        return fn(p, v, __ATOMIC_SEQ_CST); \
    }
#define A(b, T) \
    T __tsan_atomic##b##_load(const volatile T * p, int) \
    { \
        access((void *)p, sizeof(T), false, true); \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST); \
    } \
    void __tsan_atomic##b##_store(volatile T * p, T v, int) \
    { \
        access((void *)p, sizeof(T), true, true); \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST); \
    } \
    RMW(b, T, exchange, __atomic_exchange_n) \
    RMW(b, T, fetch_add, __atomic_fetch_add) \
    RMW(b, T, fetch_sub, __atomic_fetch_sub) \
    RMW(b, T, fetch_and, __atomic_fetch_and) \
    RMW(b, T, fetch_or, __atomic_fetch_or) \
    RMW(b, T, fetch_xor, __atomic_fetch_xor) \
    RMW(b, T, fetch_nand, __atomic_fetch_nand) \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T * p, T * e, T v, int, int) \
    { \
        access((void *)p, sizeof(T), true, true); \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T * p, T * e, T v, int, int) \
    { \
        access((void *)p, sizeof(T), true, true); \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T * p, T e, T v, int, int) \
    { \
        access((void *)p, sizeof(T), true, true); \
        __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        return e; \
    }
extern "C"
{
    R(1) R(2) R(4) R(8) R(16)
    A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
    void __tsan_init() {}
    void __tsan_func_entry(void *) {}
    void __tsan_func_exit() {}
    void __tsan_vptr_update(void **, void *) {}
    void __tsan_vptr_read(void **) {}
    void __tsan_read_range(void * p, size_t n) { access(p, n, false, false); }
    void __tsan_write_range(void * p, size_t n) { access(p, n, true, false); }
    void __tsan_atomic_thread_fence(int) { step(true); }
    void __tsan_atomic_signal_fence(int) {}
}
