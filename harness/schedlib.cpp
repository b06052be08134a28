// The thread library under the deterministic scheduler of sched.h: these definitions take the place of the C library's for the
// program and for the C++ library alike, so that mutexes, condition variables, threads, one-time calls, futexes and the clock
// are the scheduler's while a run lasts.
#include "sched.h"
#include <cerrno>
#include <cstdarg>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace
{
    std::map<void *, int> & owners() { static std::map<void *, int> m; return m; }
    template <class F>
    F real(char const * name, F) { return (F)dlsym(RTLD_NEXT, name); }
    long ns(timespec const * t) { return t->tv_sec * 1000000000L + t->tv_nsec; }
    long later(long t) { return t < 0 || t > 4000000000000000000L ? 4000000000000000000L : t; }
    void lock(pthread_mutex_t * m)
    {
        while (true)
        {
            {
                sched::Pause p;
                auto & o = owners()[m];
                if (! o)
                {
                    o = sched::self() + 1;
                    return;
                }
            }
            sched::sleep_on(m);
        }
    }
    void unlock(pthread_mutex_t * m)
    {
        {
            sched::Pause p;
            owners().erase(m);
        }
        sched::wake(m, 1);
    }
    int wait(pthread_cond_t * c, pthread_mutex_t * m, long deadline)
    {
        sched::sync();
        bool in = true;
        unlock(m);
        if (sched::random() % 12)   // a wait may also end by itself
            in = sched::sleep_on(c, deadline);
        else if (deadline >= 0 && sched::now >= deadline)
            in = false;
        lock(m);
        return in ? 0 : ETIMEDOUT;
    }
}
namespace schedlib { void reset() { owners().clear(); } }
#define REAL(name, ...) { static auto f = real(#name, name); return f(__VA_ARGS__); }
extern "C"
{
    int pthread_create(pthread_t * h, pthread_attr_t const * at, void * (*f)(void *), void * arg)
    {
        if (! sched::running())
            REAL(pthread_create, h, at, f, arg)
        *h = (pthread_t)sched::spawn([=] { f(arg); });
        sched::sync();
        return 0;
    }
    int pthread_join(pthread_t h, void ** r)
    {
        if (! sched::running())
            REAL(pthread_join, h, r)
        sched::sync();
        sched::join((int)h);
        if (r)
            *r = nullptr;
        return 0;
    }
    int pthread_detach(pthread_t h)
    {
        if (! sched::running())
            REAL(pthread_detach, h)
        return 0;
    }
    pthread_t pthread_self()
    {
        if (! sched::running())
            REAL(pthread_self)
        return sched::self() ? (pthread_t)sched::self() : (pthread_t)1000;
    }
    int pthread_mutex_lock(pthread_mutex_t * m)
    {
        if (! sched::running())
            REAL(pthread_mutex_lock, m)
        sched::sync();
        lock(m);
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t * m)
    {
        if (! sched::running())
            REAL(pthread_mutex_trylock, m)
        sched::sync();
        sched::Pause p;
        auto & o = owners()[m];
        if (o)
            return EBUSY;
        o = sched::self() + 1;
        return 0;
    }
    int pthread_mutex_unlock(pthread_mutex_t * m)
    {
        if (! sched::running())
            REAL(pthread_mutex_unlock, m)
        unlock(m);
        sched::sync();
        return 0;
    }
    int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
    {
        if (! sched::running())
            REAL(pthread_cond_wait, c, m)
        return wait(c, m, -1);
    }
    int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, timespec const * t)
    {
        if (! sched::running())
            REAL(pthread_cond_clockwait, c, m, k, t)
        return wait(c, m, later(ns(t)));
    }
    int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, timespec const * t)
    {
        if (! sched::running())
            REAL(pthread_cond_timedwait, c, m, t)
        return wait(c, m, later(ns(t)));
    }
    int pthread_cond_signal(pthread_cond_t * c)
    {
        if (! sched::running())
            REAL(pthread_cond_signal, c)
        sched::sync();
        sched::wake(c, 1);
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t * c)
    {
        if (! sched::running())
            REAL(pthread_cond_broadcast, c)
        sched::sync();
        sched::wake(c, 1000);
        return 0;
    }
    int pthread_once(pthread_once_t * o, void (*f)())
    {
        if (! sched::running())
            REAL(pthread_once, o, f)
        while (*o == 1)
            sched::sleep_on(o);
        if (*o == 2)
            return 0;
        *o = 1;
        f();
        *o = 2;
        sched::wake(o, 1000);
        return 0;
    }
    int clock_gettime(clockid_t k, timespec * t)
    {
        if (! sched::running())
            REAL(clock_gettime, k, t)
        t->tv_sec = sched::now / 1000000000L;
        t->tv_nsec = sched::now % 1000000000L;
        return 0;
    }
    int clock_nanosleep(clockid_t k, int fl, timespec const * t, timespec * r)
    {
        if (! sched::running())
            REAL(clock_nanosleep, k, fl, t, r)
        static char key;
        sched::sleep_on(&key, fl & TIMER_ABSTIME ? ns(t) : sched::now + ns(t));
        return 0;
    }
    int nanosleep(timespec const * t, timespec * r) { return clock_nanosleep(CLOCK_MONOTONIC, 0, t, r); }
    int usleep(useconds_t u)
    {
        timespec t{ (long)u / 1000000, (long)u % 1000000 * 1000 };
        return nanosleep(&t, nullptr);
    }
    int sched_yield() { if (sched::running()) sched::sync(); return 0; }
    long syscall(long no, ...)
    {
        va_list ap;
        va_start(ap, no);
        long a[6];
        for (auto & x : a)
            x = va_arg(ap, long);
        va_end(ap);
        if (! sched::running() || no != SYS_futex)
        {
            static auto f = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
            return f(no, a[0], a[1], a[2], a[3], a[4], a[5]);
        }
        int * addr = (int *)a[0];
        int op = (int)a[1] & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME), val = (int)a[2];
        sched::sync();
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            if (*addr != val)
                return errno = EAGAIN, -1;
            if (sched::random() % 16 == 0)
                return errno = EINTR, -1;
            long d = a[3] ? ns((timespec const *)a[3]) + (op == FUTEX_WAIT ? sched::now : 0) : -1;
            if (! sched::sleep_on(addr, d))
                return errno = ETIMEDOUT, -1;
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            int n = sched::wake(addr, val);
            sched::sync();
            return n;
        }
        return errno = ENOSYS, -1;
    }
}
