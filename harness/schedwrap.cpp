// The calls of MathThreads.cpp and MathWorker.cpp that go to the scheduler of sched.h (linked with --wrap).
#include "sched.h"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
// ---- what the code under test calls
extern "C"
{
    long __real_syscall(long, ...);
    long __wrap_syscall(long no, ...)
    {
        va_list ap;
        va_start(ap, no);
        long a[6];
        for (auto & x : a)
            x = va_arg(ap, long);
        va_end(ap);
        if (! sched::alive() || no != SYS_futex)
            return __real_syscall(no, a[0], a[1], a[2], a[3], a[4], a[5]);
        int * addr = (int *)a[0];
        int op = (int)a[1] & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME), val = (int)a[2];
        sched::sync();
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            if (*addr != val)
            {
                errno = EAGAIN;
                return -1;
            }
            if (a[3] && sched::random() % 2)   // a timed wait may end by itself
            {
                errno = ETIMEDOUT;
                return -1;
            }
            if (sched::random() % 16 == 0)     // so may any wait
            {
                errno = EINTR;
                return -1;
            }
            sched::sleep_on(addr);
            sched::sync();
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            int woken = sched::wake(addr, val);
            sched::sync();
            return woken;
        }
        errno = ENOSYS;
        return -1;
    }
    int __real_pthread_create(pthread_t *, pthread_attr_t const *, void * (*)(void *), void *);
    int __wrap_pthread_create(pthread_t * h, pthread_attr_t const * at, void * (*f)(void *), void * arg)
    {
        if (! sched::alive())
            return __real_pthread_create(h, at, f, arg);
        *h = (pthread_t)sched::spawn([=] { f(arg); });
        sched::sync();
        return 0;
    }
    int __wrap_sched_getaffinity(pid_t, size_t n, cpu_set_t * s)
    {
        memset(s, 0, n);
        for (int i = 0; i < sched::cpus; ++i)
            CPU_SET(i, s);
        return 0;
    }
    int __wrap_usleep(unsigned) { sched::sync(); return 0; }
    int __wrap_sched_yield() { sched::sync(); return 0; }
}

