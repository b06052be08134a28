// Runs programs of parallel work on the real thread pool under the scheduler, and records what each thread does as one JSON
// line per run.  Arguments: OUT SEED FIRST COUNT [GUIDES]
#include "MathWorker.h"
#include "sched.h"
#include <csignal>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <string>

void * FmAlloc(size_t n) { return malloc(n); }
void FmFree(void * p) { free(p); }
CMathWorker * g_cMathWorker = nullptr;

namespace
{
    // event codes: 1 submit (kind, n), 2 start (thread, core, low, length), 3 end (thread, low), 4 return (interrupted),
    // 5 interrupt raised, 6 a thread wrote into work that had returned (thread), 7 all other threads asleep, 8 stuck
    struct Arg
    {
        int points;
        void * memory;
    };
    long armed = -1;
    bool inside = false;

    void body(Arg * a, int core, long lo, long n)
    {
        sched::log({ 2, sched::self(), core, lo, n });
        for (int i = 0; i < a->points; ++i)
            sched::point();
        sched::log({ 3, sched::self(), lo });
    }
    bool onItem(void * a, int32_t core, int64_t i) { body((Arg *)a, core, i, 1); return true; }
    bool onChunk(void * a, int32_t core, int64_t lo, int64_t n) { body((Arg *)a, core, lo, n); return true; }
    void onGroup(void * a, int64_t i) { body((Arg *)a, -1, i, 1); }

    void program(uint64_t seed)
    {
        CMathWorker * w = g_cMathWorker = new CMathWorker();
        sched::sync_range(w->pWorkerRing, offsetof(stWorkerRing, WorkerQueue));
        // the ring of work items may have been round before the workers come
        if (sched::random() % 2)
        {
            sched::Pause pause;
            static Arg none{ 0, nullptr };
            for (int i = (int)(sched::random() % 1100) + (int)(sched::random() % 2) * 1020; i > 0; --i)
                w->DoMultiThreadedWork(1 + i % 7, [](void *, int32_t, int64_t) { return true; }, &none);
        }
        w->StartWorkerThreads(0);
        int works = 1 + (int)(sched::random() % 4);
        std::vector<Arg *> args;
        for (int k = 0; k < works; ++k)
        {
            int kind = (int)(sched::random() % 4);
            long n = kind == 1 ? (long[]){ 32768, 32769, 49151, 40000, 16384 * 4, 16384 * 5 + 1, 100, 16384 * 3 + 8191 }[sched::random() % 8]
                               : (long[]){ 1, 2, 3, 3, 4, 5, 8, 12 }[sched::random() % 8];
            // lengths at any offset of the block size, often near a power of two
            if (kind == 1 && sched::random() % 3 == 0)
                n = 16384 * (2 + (long)(sched::random() % 3)) + (sched::random() % 2 ? (long)(sched::random() % 16384) : (1L << (sched::random() % 14)) - (long)(sched::random() % 2));
            bool section = kind == 3 || sched::random() % 4 == 0;
            if (sched::random() % 8 == 0)
            {
                // bins shared out among the participants
                stBinCount * parts = nullptr;
                long bins = (long)(sched::random() % 40) * (1 + (long)(sched::random() % 3) * 12345), most = (long)(sched::random() % 6);
                long got = w->SegmentBins(bins, most, &parts);
                sched::log({ 9, bins, most, got });
                for (long i = 0; i < got; ++i)
                    sched::log({ 10, parts[i].BinLow, parts[i].BinHigh });
                WORKSPACE_FREE(parts);
            }
            if (sched::random() % 4 == 0)
                w->SetFutexWakeup((int)(sched::random() % 5));
            w->NoThreading = sched::random() % 16 == 0;
            int wake = sched::random() % 3 == 0 ? (int)(sched::random() % 4) : 0;
            Arg * a = new Arg{ (int)(sched::random() % 12), nullptr };
            args.push_back(a);
            stMATH_WORKER_ITEM * item = w->NoThreading ? nullptr : w->GetWorkItemCount(1);
            if (item)
                sched::unwatch(item);
            sched::log({ 1, kind, n });
            auto work = [&]
            {
                inside = section;
                if (kind == 0)
                    w->DoMultiThreadedWork((int)n, onItem, a, wake);
                else if (kind == 1)
                    w->DoMultiThreadedChunkWork(n, onChunk, a, wake);
                else
                    w->WorkGroupByCall((GROUPBY_FUNC)onGroup, a, n);
                inside = false;
            };
            long r = 0;
            if (section)
            {
                armed = sched::random() % 2 ? -1 : (long)(sched::random() % 300);
                r = riptide::interruptible_section(work);
                armed = -1;
            }
            else
                work();
            sched::log({ 4, r });
            if (item)
                sched::watch(item, sizeof(*item), [](int t) { if (t != 0) sched::log({ 6, t }); });
            // sometimes the pool gets time to settle
            for (int i = (int)(sched::random() % 3) * 40; i > 0; --i)
                sched::point();
        }
        for (int i = 0; i < 200000 && ! sched::quiet(); ++i)
            sched::point();
        sched::log({ 7, sched::quiet() ? 1 : 0 });
        for (Arg * a : args)
            delete a;
    }
}

int main(int argc, char ** argv)
{
    FILE * out = fopen(argv[1], "w");
    uint64_t seed = strtoull(argv[2], 0, 10);
    long first = atol(argv[3]), count = atol(argv[4]);
    std::vector<std::vector<int>> guides;
    if (argc > 5)
    {
        std::ifstream f(argv[5]);
        std::string line;
        while (std::getline(f, line))
        {
            std::istringstream is(line);
            std::vector<int> g;
            int t;
            while (is >> t)
                g.push_back(t);
            guides.push_back(g);
        }
    }
    fprintf(out, "{\"op\":\"begin\",\"st\":\"ok\",\"a\":{},\"r\":{}}\n");
    for (long i = first; i < first + count; ++i)
    {
        sched::Options o;
        o.seed = seed * 1000003 + i;
        o.mode = (int)(i % 4);
        if (! guides.empty())
            o.guide = guides[i % guides.size()];
        sched::cpus = 1 + (int)((o.seed * 2654435761u >> 7) % 4);
        armed = -1;
        inside = false;
        sched::on_step([] {
            if (inside && armed >= 0 && --armed < 0)
            {
                sched::log({ 5 });
                raise(SIGINT);
            }
        });
        auto r = sched::run(o, [&] { program(o.seed); });
        if (r == sched::Stuck)
        {
            sched::log({ 8 });
            signal(SIGINT, SIG_DFL);
        }
        fprintf(out, "{\"op\":\"run\",\"st\":\"ok\",\"a\":{\"seed\":%ld,\"i\":%ld,\"mode\":%d,\"cpus\":%d,\"guided\":%d},\"r\":{\"steps\":%ld,\"sw\":%ld,\"ev\":[", (long)seed, i,
                o.mode, sched::cpus, (int)o.guide.size(), sched::steps, sched::switches);
        sched::write_log(out);
        fprintf(out, "]}}\n");
        fflush(out);
        free(g_cMathWorker ? g_cMathWorker->pWorkerRing : nullptr);
        ::operator delete(g_cMathWorker);
        g_cMathWorker = nullptr;
    }
    fclose(out);
    _exit(0);
}
