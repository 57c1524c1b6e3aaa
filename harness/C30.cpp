// C30: worker statistics count every task once and back-off delays grow and reset.
#include "pbt.h"
#include <map>
#include <set>
#include <memory>
#include <time.h>
#include <unistd.h>
#include <parallel/statistics_aggregator.h>
#include <parallel/mpi/delay_supplier.h>
#include <k52/parallel/worker_pool_factory.h>
using namespace pbt;
using namespace k52::parallel;

// Nobody really sleeps: the time asked for is added up.
static double g_slept_us = 0;
extern "C" int usleep(useconds_t us) { g_slept_us += us; return 0; }
extern "C" int nanosleep(const timespec* t, timespec* left) { g_slept_us += t->tv_sec * 1e6 + t->tv_nsec / 1e3; if (left) left->tv_sec = left->tv_nsec = 0; return 0; }
extern "C" unsigned sleep(unsigned t) { g_slept_us += t * 1e6; return 0; }
extern "C" int clock_nanosleep(clockid_t, int flags, const timespec* t, timespec*)
{
    if (flags == 0) g_slept_us += t->tv_sec * 1e6 + t->tv_nsec / 1e3;
    return 0;
}

static void aggregator(Src& s)
{
    StatisticsAggregator a;
    std::map<int, std::pair<int, int>> model;
    std::vector<int> ids;
    for (int i = s.chance(0.05) ? s.range(7, 60) : s.range(1, 6); i > 0; i--) ids.push_back(s.chance(0.2) ? (int)s.range64(-2147483648LL, 2147483647LL) : s.range(0, 8));
    int n = s.chance(0.05) ? s.range(80, 400) : s.size(0, 80);
    for (int q = 0; q <= n; q++)
    {
        if (q == n || s.chance(0.2))
        {
            std::vector<WorkerStatistics> v = a.GetStatistics();
            std::set<int> seen;
            for (auto& w : v)
            {
                check(seen.insert(w.get_id()).second, "worker ", w.get_id(), " is listed twice");
                check(model.count(w.get_id()), "worker ", w.get_id(), " was never registered");
                auto& m = model[w.get_id()];
                check(w.get_counted() == m.first, "worker ", w.get_id(), " counted ", m.first, " tasks, not ", w.get_counted());
                check(w.get_errors() == m.second, "worker ", w.get_id(), " had ", m.second, " errors, not ", w.get_errors());
            }
            check(v.size() == model.size(), v.size(), " workers are listed instead of ", model.size());
            if (q == n) break;
        }
        int id = s.pick(ids);
        if (s.noting()) s.note() << id << " ";
        if (s.chance(0.7)) { a.RegisterCount(id); model[id].first++; s.label("count"); }
        else { a.RegisterError(id); model[id].second++; s.label("error"); }
    }
    if (model.size() >= 2 && n >= 5) s.nontrivial();
}

static void counters(Src& s)
{
    int c = s.chance(0.5) ? 0 : s.range(0, 1000), e = s.chance(0.5) ? 0 : s.range(0, 1000), id = (int)s.range64(-2147483648LL, 2147483647LL);
    std::unique_ptr<WorkerStatistics> w;
    if (s.flip()) w.reset(new WorkerStatistics(c, e, id));
    else { w.reset(new WorkerStatistics()); c = e = 0; id = w->get_id(); }
    int n = s.size(0, 40);
    for (int i = 0; i < n; i++)
    {
        if (s.flip()) { w->IncreaseCounted(); c++; } else { w->IncreaseErrors(); e++; }
        if (s.chance(0.1)) { WorkerStatistics copy(*w); w->IncreaseErrors(); e++; *w = copy; e--; }
        check(w->get_counted() == c && w->get_errors() == e && w->get_id() == id, "counted ", w->get_counted(), ", errors ", w->get_errors(), ", id ", w->get_id(), " instead of ", c, ", ", e, ", ", id);
    }
    if (n > 1) s.nontrivial();
}

static void delays(Src& s)
{
    k52::parallel::mpi::DelaySupplier d, other;
    const double steps[] = {1, 10, 100, 1000};
    int at = 0;
    int n = s.size(0, 60);
    for (int q = 0; q < n; q++)
    {
        switch (s.weighted({4, 4, 1, 1, 1}))
        {
        case 0:
            g_slept_us = 0;
            d.SleepWithCurrentDelay();
            check(g_slept_us == steps[at] * 1000, "slept ", g_slept_us, " us instead of ", steps[at] * 1000);
            if (s.noting()) s.note() << "sleep ";
            s.label("slept " + std::to_string((int)steps[at]));
            if (at == 3) s.nontrivial();
            break;
        case 1: d.IncreaseDelay(); at = std::min(at + 1, 3); if (s.noting()) s.note() << "increase "; break;
        case 2: d.ResetDelay(); at = 0; if (s.noting()) s.note() << "reset "; break;
        case 3: other.IncreaseDelay(); break;
        default:
            {
                int ms = s.range(0, 2000);
                g_slept_us = 0;
                k52::parallel::mpi::DelaySupplier::SleepMillisec(ms);
                check(g_slept_us == ms * 1000.0, "slept ", g_slept_us, " us instead of ", ms * 1000.0);
            }
        }
    }
}

namespace
{
struct R : public ITaskResult {};
struct T : public ITask
{
    explicit T(bool f) : fails(f) {}
    bool fails;
    virtual ITaskResult* Perform() const { if (fails) throw std::runtime_error("task"); return new R(); }
};
}

static void pool(Src& s)
{
    IWorkerPool::shared_ptr p = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool);
    IWorkerPool::shared_ptr other = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool);
    T good(false), bad(true);
    int done = 0, n = s.size(0, 8);
    for (int q = 0; q <= n; q++)
    {
        std::vector<WorkerStatistics> v = p->GetStatistics();
        check(v.size() == 1, v.size(), " workers are listed instead of one");
        check(v[0].get_counted() == done, "counted ", v[0].get_counted(), " tasks instead of ", done);
        if (q == n) break;
        int k = s.size(0, 30), failing = s.chance(0.2) && k ? s.range(0, k - 1) : -1;
        std::vector<const ITask*> t(k, &good);
        if (failing >= 0) t[failing] = &bad;
        try { p->DoTasks(t); check(failing < 0, "a failing task was ignored"); done += k; }
        catch (const std::runtime_error&) { check(failing >= 0, "failed without a failing task"); done += failing; }
        if (s.noting()) s.note() << k << " tasks, failing " << failing << "\n";
        if (k > 1) s.nontrivial();
        if (s.flip()) other->DoTasks(std::vector<const ITask*>(s.range(0, 3), &good));
    }
}

Property pbt::property()
{
    return {"C30",
        {{"aggregator", 4, aggregator}, {"counters", 1, counters}, {"delays", 3, delays}, {"pool", 3, pool}},
        300000, 10000000,
        "Histories of up to 80 registrations for up to 6 workers, of increments, of sleeps, increases and resets of a delay (the time asked of the system is "
        "recorded instead of slept), and of batches on a sequential pool, some with a failing task, against plain counters. Non-trivial: several workers, a "
        "batch of several tasks, or a sleep at the largest delay.",
        {"A failed batch counts the tasks done before the one that threw."}};
}
