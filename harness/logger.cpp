// Runs the logging service of /repo/src/logging under the deterministic scheduler: producers log, one or two controllers enable
// and disable, and a handler written as LoggingHandler of Logger.cpp takes the messages.
#include "logging/logging.h"
#include "sched.h"
#include <cstdlib>
#include <string>
#include <sys/single_threaded.h>
#include <unistd.h>

namespace schedlib { void reset(); }
using namespace riptide::logging;
namespace
{
    // events: 1 p k: producer p begins to log its k-th message   2 p k: and is back    3 p k: the handler gives it out
    //         4 c: controller c begins to enable   5 c: is back   6 c t: begins to disable (t: within a time)   7 c d: is back after d us
    //         8: controller's pause of three intervals over   9: stuck   0 ...: what the run is made of
    void program(uint64_t seed)
    {
        auto service = std::make_shared<logging_service>();
        auto rnd = [](int n) { return (int)(sched::random() % n); };
        int producers = 1 + rnd(3), messages = 1 + rnd(4), controllers = 1 + (rnd(3) == 0), sessions = 1 + rnd(3);
        uint32_t batch = rnd(3) == 0 ? 50 : 1 + rnd(3), room = rnd(2) ? 1000 : 1 + rnd(3);
        bool huge = rnd(2);
        long interval = huge ? 36000000L : 1 + rnd(3);   // milliseconds
        int slow = rnd(3) == 0 ? 1 + rnd(60) : 0;
        bool timed = rnd(4) == 0, settle = ! huge && rnd(2);
        sched::jumps = ! huge;
        sched::log({ 0, producers, messages, controllers, (long)batch, (long)room, huge });
        auto handler = [=]
        {
            std::vector<log_record> batch;
            auto sent = std::chrono::steady_clock::now();
            while (service->active())
            {
                batch.clear();
                while (batch.size() < service->batch_size() && std::chrono::steady_clock::now() - sent < service->interval())
                {
                    auto m = service->receive();
                    if (! m)
                        break;
                    batch.push_back(std::move(*m));
                }
                sent = std::chrono::steady_clock::now();
                for (auto & m : batch)
                {
                    int v = atoi(m.message.c_str());
                    sched::log({ 3, v / 100, v % 100 });
                    for (int i = 0; i < slow; ++i)
                        sched::point();
                }
            }
        };
        auto enable = [&, handler](int c)
        {
            sched::log({ 4, c });
            service->enable({ .batch_size = batch, .flush_interval = std::chrono::milliseconds(interval), .max_size = room }, handler);
            sched::log({ 5, c });
        };
        auto disable = [&](int c)
        {
            bool t = timed && rnd(2);
            sched::log({ 6, c, t });
            long from = sched::now;
            if (t)
                service->disable(std::chrono::milliseconds(rnd(5)));
            else
                service->disable();
            sched::log({ 7, c, std::min((sched::now - from) / 1000, 1000000000L) });
        };
        std::vector<std::thread> all;
        for (int p = 1; p <= producers; ++p)
            all.emplace_back(
                [&, p]
                {
                    logger log("x", service);
                    for (int k = 1; k <= messages; ++k)
                    {
                        sched::log({ 1, p, k });
                        log.info("{}", p * 100 + k);
                        sched::log({ 2, p, k });
                        for (int i = rnd(4) * rnd(200); i > 0; --i)
                            sched::point();
                    }
                });
        auto control = [&](int c, bool last)
        {
            for (int s = 0; s < sessions; ++s)
            {
                enable(c);
                for (int i = rnd(4) * rnd(300); i > 0; --i)
                    sched::point();
                if (settle && last)
                {
                    for (auto & t : all)
                        if (t.joinable())
                            t.join();
                    sched::jumps = false;
                    std::this_thread::sleep_for(std::chrono::milliseconds(3 * interval + 50));
                    sched::log({ 8 });
                    sched::jumps = true;
                }
                disable(c);
            }
        };
        std::thread second;
        if (controllers > 1)
            second = std::thread([&] { control(2, false); });
        control(1, controllers == 1);
        if (second.joinable())
            second.join();
        for (auto & t : all)
            if (t.joinable())
                t.join();
        disable(1);
        sched::log({ 10, service->active() });
    }
}

int main(int argc, char ** argv)
{
    FILE * out = fopen(argv[1], "w");
    __libc_single_threaded = 0;   // coroutines: reference counts must be updated in one step
    uint64_t seed = strtoull(argv[2], 0, 10);
    long first = atol(argv[3]), count = atol(argv[4]);
    fprintf(out, "{\"op\":\"begin\",\"st\":\"ok\",\"a\":{},\"r\":{}}\n");
    for (long i = first; i < first + count; ++i)
    {
        sched::Options o;
        o.seed = seed * 1000003 + i;
        o.mode = (int)(i % 4);
        o.limit = 200000;
        schedlib::reset();
        auto r = sched::run(o, [&] { program(o.seed); });
        if (r == sched::Stuck)
            sched::log({ 9 });
        fprintf(out, "{\"op\":\"run\",\"st\":\"ok\",\"a\":{\"seed\":%ld,\"i\":%ld,\"mode\":%d},\"r\":{\"steps\":%ld,\"sw\":%ld,\"ev\":[", (long)seed, i,
                o.mode, sched::steps, sched::switches);
        sched::write_log(out);
        fprintf(out, "]}}\n");
        fflush(out);
        if (r == sched::Stuck)   // its threads are abandoned: go on in a fresh process
            _exit(3);
    }
    fclose(out);
    _exit(0);
}
