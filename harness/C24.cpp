// C24: worker pools do every task exactly once and return results in task order.
#include "pbt.h"
#include <atomic>
#include <memory>
#include <thread>
#include <time.h>
#include <boost/thread.hpp>
#include <k52/parallel/worker_pool_factory.h>
using namespace pbt;
using namespace k52::parallel;

// The number of workers of a thread pool is the number of processors: the harness decides it.
static std::atomic<unsigned> g_processors{4};
namespace boost { unsigned thread::hardware_concurrency() BOOST_NOEXCEPT { return g_processors.load(); } }

namespace
{
struct Result : public ITaskResult
{
    Result(size_t id, const void* task) : id(id), task(task) {}
    size_t id;
    const void* task;
};

struct TaskError : public std::runtime_error
{
    explicit TaskError(size_t id) : std::runtime_error("task " + std::to_string(id)), id(id) {}
    size_t id;
};

enum Kind { Fast, Spin, Sleep, Yield, Nested, Null, Throws, ThrowsOther };

struct Spec { Kind kind; int amount; };

class Task : public ITask
{
public:
    Task(size_t id, Spec spec) : id_(id), spec_(spec) {}
    ~Task() { alive_ = 0; }
    virtual ITaskResult* Perform() const
    {
        // a task that is already gone cannot be performed: memory checks see that, too
        running_++;
        called_++;
        struct Leave { std::atomic<int>& r; ~Leave() { r--; } } leave{running_};
        switch (spec_.kind)
        {
        case Spin: { volatile int x = 0; for (int i = 0; i < spec_.amount * 200; i++) x = x + i; break; }
        case Sleep: { timespec t = {0, spec_.amount * 10000L}; nanosleep(&t, nullptr); break; }
        case Yield: for (int i = 0; i < spec_.amount; i++) std::this_thread::yield(); break;
        case Nested:
            {
                IWorkerPool::shared_ptr p = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool);
                Task inner(id_ + 1000, Spec{Fast, 0});
                std::vector<const ITask*> v(2, &inner);
                if (p->DoTasks(v).size() != 2 || inner.called() != 2) return new Result(999999, this);
                break;
            }
        case Null: return nullptr;
        case Throws: throw TaskError(id_);
        case ThrowsOther:
            switch (id_ % 4)
            {
            case 0: throw (int)id_;
            case 1: throw "task";
            case 2: throw boost::thread_interrupted();
            default: throw std::bad_alloc();
            }
        default: break;
        }
        return new Result(id_, this);
    }
    int called() const { return called_; }
    int running() const { return running_; }
private:
    size_t id_;
    Spec spec_;
    int alive_ = 1;
    mutable std::atomic<int> called_{0}, running_{0};
};

struct Batch { std::vector<Spec> tasks; std::vector<size_t> order; bool throws = false; };

Batch gen_batch(Src& s, bool may_throw)
{
    Batch b;
    if (s.chance(0.002))
    {
        // numbers that do not fit in 16 bits
        b.tasks.assign(s.pick(std::vector<size_t>{32768, 65536, 33000, 66000, 40000}), Spec{Fast, 0});
        for (size_t i = 0; i < b.tasks.size(); i++) b.order.push_back(i);
        return b;
    }
    size_t n = s.chance(0.05) ? s.range(100, 400) : s.size(0, 60);
    bool all_same = s.chance(0.3);
    Spec first{Fast, 0};
    for (size_t i = 0; i < n; i++)
    {
        if (i < 40 || !all_same)
            if (i == 0 || !all_same)
            {
                first.kind = (Kind)s.weighted({6, 3, 3, 2, 1, 1});
                first.amount = s.range(0, 30);
            }
        b.tasks.push_back(first);
    }
    if (may_throw && n)
        for (int k = s.chance(0.2) ? (int)n : s.range(1, 3); k > 0; k--)
        {
            b.tasks[s.index(n)].kind = s.chance(0.2) ? ThrowsOther : Throws;
            b.throws = true;
        }
    for (size_t i = 0; i < n; i++) b.order.push_back(i);
    // some tasks are listed more than once
    if (n && s.chance(0.2))
        for (int k = s.range(1, 4); k > 0; k--) b.order.insert(b.order.begin() + s.index(b.order.size() + 1), s.index(n));
    return b;
}

std::string show_batch(const Batch& b)
{
    static const char* const names[] = {"fast", "spin", "sleep", "yield", "nested", "null", "throw", "throw-int"};
    std::string r;
    for (size_t i = 0; i < b.order.size() && i < 60; i++)
    {
        const Spec& t = b.tasks[b.order[i]];
        r += " " + std::to_string(b.order[i]) + ":" + names[t.kind] + (t.kind >= Spin && t.kind <= Yield ? std::to_string(t.amount) : "");
    }
    return r;
}

void run(IWorkerPool& pool, const Batch& b, const char* name)
{
    std::vector<std::unique_ptr<Task>> tasks;
    for (size_t i = 0; i < b.tasks.size(); i++) tasks.emplace_back(new Task(i, b.tasks[i]));
    std::vector<const ITask*> list;
    std::vector<int> times(b.tasks.size());
    for (size_t i : b.order) { list.push_back(tasks[i].get()); times[i]++; }
    const std::vector<const ITask*> before = list;
    std::vector<ITaskResult::shared_ptr> results;
    bool threw = false;
    try { results = pool.DoTasks(list); }
    catch (const TaskError& e)
    {
        threw = true;
        check(b.throws && e.id < b.tasks.size() && b.tasks[e.id].kind == Throws, name, ": an exception of a task that throws none: ", std::string(e.what()));
    }
    catch (const std::exception& e)
    {
        threw = true;
        check(b.throws, name, ": the batch failed although no task throws: ", std::string(e.what()));
    }
    catch (...)
    {
        threw = true;
        check(b.throws, name, ": the batch failed although no task throws");
    }
    for (size_t i = 0; i < tasks.size(); i++) check(tasks[i]->running() == 0, name, ": task ", i, " is still running after the batch");
    if (b.throws)
    {
        check(threw, name, ": a task threw, but the batch succeeded");
        for (size_t i = 0; i < tasks.size(); i++) check(tasks[i]->called() <= times[i], name, ": task ", i, " was called ", tasks[i]->called(), " times instead of ", times[i]);
        return;
    }
    check(list == before, name, ": the list of tasks was changed");
    for (size_t i = 0; i < tasks.size(); i++) check(tasks[i]->called() == times[i], name, ": task ", i, " of ", tasks.size(), " was called ", tasks[i]->called(), " times instead of ", times[i]);
    check(results.size() == b.order.size(), name, ": ", results.size(), " results of ", b.order.size(), " tasks");
    std::vector<const void*> seen;
    for (size_t i = 0; i < results.size(); i++)
    {
        if (b.tasks[b.order[i]].kind == Null) { check(!results[i], name, ": a result where the task gave none"); continue; }
        const Result* r = dynamic_cast<const Result*>(results[i].get());
        check(r != nullptr, name, ": no result at position ", i, " of ", results.size());
        check(r->id == b.order[i] && r->task == list[i], name, ": at position ", i, " is the result of task ", r->id, " instead of ", b.order[i]);
        seen.push_back(r);
    }
    std::sort(seen.begin(), seen.end());
    check(std::adjacent_find(seen.begin(), seen.end()) == seen.end(), name, ": one result at two positions");
}

IWorkerPool::shared_ptr create(int kind)
{
    IWorkerPool::shared_ptr p = kind == 0 ? WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool)
        : kind == 1 ? WorkerPoolFactory::CreateBestWorkerPool()
        : WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool);
    check(p != nullptr, "no pool");
    check(p->IsValid(), "the pool is not valid");
    return p;
}
const char* const kNames[] = {"thread pool", "best pool", "sequential pool"};
}

static void batches(Src& s)
{
    g_processors = s.chance(0.3) ? 2 : s.range(2, 12);
    s.note("workers", (int)g_processors);
    int kind = s.weighted({6, 2, 2});
    IWorkerPool::shared_ptr p = create(kind), q;
    bool compare = s.chance(0.3);
    if (compare) q = create(2);
    int n = s.size(0, 6);
    for (int i = 0; i < n; i++)
    {
        Batch b = gen_batch(s, s.chance(0.25));
        if (s.noting()) s.note() << kNames[kind] << ":" << show_batch(b) << "\n";
        if (b.order.size() > 1 && kind != 2) s.nontrivial();
        s.label(b.throws ? "throwing batch" : b.order.empty() ? "empty batch" : b.order.size() > 400 ? "32768 tasks and more" : b.order.size() > 12 ? "many tasks" : "few tasks");
        if (b.throws && i + 1 < n) s.label("batch after a throwing one");
        run(*p, b, kNames[kind]);
        if (compare) run(*q, b, kNames[2]);
        if (s.chance(0.1)) { timespec t = {0, 200000}; nanosleep(&t, nullptr); }
    }
    if (s.chance(0.3))
    {
        p.reset();
        p = create(kind);
        run(*p, gen_batch(s, false), kNames[kind]);
        s.label("new pool");
    }
}

static void several(Src& s)
{
    g_processors = s.range(2, 6);
    s.note("workers", (int)g_processors);
    int n = s.range(2, 4);
    std::vector<IWorkerPool::shared_ptr> pools;
    std::vector<std::vector<Batch>> todo(n);
    std::vector<int> kinds;
    for (int i = 0; i < n; i++)
    {
        kinds.push_back(s.weighted({6, 2, 1}));
        pools.push_back(create(kinds[i]));
        for (int k = s.range(1, 4); k > 0; k--)
        {
            todo[i].push_back(gen_batch(s, s.chance(0.2)));
            if (s.noting()) s.note() << i << " " << kNames[kinds[i]] << ":" << show_batch(todo[i].back()) << "\n";
        }
    }
    s.nontrivial();
    std::vector<std::string> errors(n);
    std::vector<std::thread> threads;
    for (int i = 0; i < n; i++)
        threads.emplace_back([&, i]
        {
            try { for (auto& b : todo[i]) run(*pools[i], b, kNames[kinds[i]]); pools[i].reset(); }
            catch (const Failure& f) { errors[i] = f.msg; }
        });
    for (auto& t : threads) t.join();
    for (auto& e : errors) if (!e.empty()) fail(Lit{e.c_str()});
}

// one processor, or an unknown number: no thread pool is of use, but the best pool is
static void single(Src& s)
{
    g_processors = s.chance(0.3) ? 0 : 1;
    s.note("processors", (int)g_processors);
    if (s.chance(0.3))
    {
        IWorkerPool::shared_ptr t = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool);
        check(t != nullptr, "no pool");
        check(!t->IsValid(), "a pool of one thread is said to be valid");
        Task a(0, Spec{Fast, 0});
        std::vector<const ITask*> v((size_t)s.range(0, 3), &a);
        must_throw<std::runtime_error>("tasks for a pool of one thread", [&] { t->DoTasks(v); });
        check(a.called() == 0, "a pool of one thread did a task it refused");
        s.label("refused");
    }
    IWorkerPool::shared_ptr p = create(1);
    for (int k = s.range(1, 3); k > 0; k--)
    {
        Batch b = gen_batch(s, s.chance(0.3));
        if (s.noting()) s.note() << "best pool:" << show_batch(b) << "\n";
        if (b.order.size() > 1) s.nontrivial();
        run(*p, b, "best pool");
    }
}

Property pbt::property()
{
    Property p = {"C24",
        {{"batches", 6, batches}, {"several", 3, several}, {"single", 1, single}},
        4000, 150000,
        "Lists of up to 400 tasks (fast, spinning, sleeping, yielding, using another pool, without a result, throwing; some listed twice) in repeated batches on "
        "thread, best and sequential pools of 2 to 12 workers, and on several pools in several threads, built with ThreadSanitizer: every call and result is "
        "counted, tasks are destroyed right after their batch. Non-trivial: a batch of at least two tasks on a pool with threads, or several pools.",
        {"The schedules of the threads are the operating system's, varied by the tasks' durations and the number of workers.",
         "One pool is used by one thread at a time."}};
    p.batch = 50;
    p.nondeterministic = true;
    p.block_limit = 20;
    return p;
}
