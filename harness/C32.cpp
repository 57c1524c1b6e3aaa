// C32: the MPI worker pool does every task exactly once, on the workers, and ends them.
#include "mpi_util.h"
#include <boost/bind.hpp>
#include <boost/mpi.hpp>
#include <map>
#include <k52/parallel/i_worker_pool.h>
#include <k52/parallel/mpi/async_call_chain.h>
#include <k52/parallel/mpi/constants.h>
#include <k52/parallel/mpi/i_mpi_task.h>
#include <k52/parallel/mpi/i_mpi_task_result.h>
#include <k52/parallel/mpi/identifyable_objects_manager.h>
#include <parallel/mpi/mpi_worker_pool.h>
using namespace pbt;
using namespace k52::parallel;
using namespace k52::parallel::mpi;

static std::map<long, std::vector<int>> g_done;     // by task, the ranks that did it
static std::vector<int> g_targets;                  // of the tasks sent, in order

// a result of several parts, some of which need no message
class Result : public IMpiTaskResult
{
public:
    std::vector<double> parts;
    std::vector<bool> silent;
    virtual AsyncCallChain::shared_ptr ReceiveAsync(boost::mpi::communicator* c, int source)
    {
        communicator_ = c;
        source_ = source;
        AsyncCallChain::shared_ptr chain;
        for (size_t i = 0; i < parts.size(); i++)
        {
            AsyncCallChain::AsyncFunctionCall f = [this, i] { return Part(i); };
            if (!chain) chain = AsyncCallChain::CreateAsyncCallChain(f); else chain->Add(f);
        }
        return chain;
    }
    virtual void Send(boost::mpi::communicator* c)
    {
        for (size_t i = 0; i < parts.size(); i++)
            if (!silent[i]) c->send(constants::kServerRank, constants::kCommonTag, parts[i]);
            else c->send(constants::kServerRank, constants::kCommonTag, std::string(i + 1, 'x'));
    }
private:
    boost::optional<boost::mpi::request> Part(size_t i)
    {
        if (!silent[i]) return communicator_->irecv(source_, constants::kCommonTag, parts[i]);
        // received at once, as parameters are
        std::string t;
        communicator_->recv(source_, constants::kCommonTag, t);
        parts[i] = (double)t.size();
        return boost::optional<boost::mpi::request>();
    }
    boost::mpi::communicator* communicator_ = nullptr;
    int source_ = 0;
};

template<int K> class Task : public IMpiTask
{
public:
    long key = -1;
    int work = 0, parts = 1;
    long pattern = 0;
    bool Silent(int i) const { return (pattern >> i) & 1; }
    double Value(int i) const { return Silent(i) ? i + 1 : key * 8.0 + i + K * 0.25; }
    virtual IMpiTaskResult* Perform() const
    {
        for (int i = 0; i < work; i++) mpi_model::pause();
        g_done[key].push_back(mpi_model::my_rank);
        Result* r = new Result();
        for (int i = 0; i < parts; i++) { r->parts.push_back(Value(i)); r->silent.push_back(Silent(i)); }
        return r;
    }
    virtual IMpiTaskResult::shared_ptr CreateEmptyResult() const
    {
        boost::shared_ptr<Result> r(new Result());
        for (int i = 0; i < parts; i++) { r->parts.push_back(-1); r->silent.push_back(Silent(i)); }
        return r;
    }
    virtual Task* Clone() const { Task* t = new Task(); t->key = key; t->work = work; t->parts = parts; t->pattern = pattern; return t; }
    virtual void Send(boost::mpi::communicator* c, int target) const
    {
        g_targets.push_back(target);
        c->send(target, constants::kCommonTag, key);
        c->send(target, constants::kCommonTag, work);
        c->send(target, constants::kCommonTag, parts);
        c->send(target, constants::kCommonTag, pattern);
    }
    virtual void Receive(boost::mpi::communicator* c, int source)
    {
        c->recv(source, constants::kCommonTag, key);
        c->recv(source, constants::kCommonTag, work);
        c->recv(source, constants::kCommonTag, parts);
        c->recv(source, constants::kCommonTag, pattern);
    }
};

struct Plain : public ITask { virtual ITaskResult* Perform() const { return nullptr; } };

static void batches(Src& s)
{
    IdentifyableObjectsManager::Instance().RegisterObject(Task<0>());
    IdentifyableObjectsManager::Instance().RegisterObject(Task<1>());
    g_done.clear();
    g_targets.clear();
    mpi_model::World w;
    mw::gen_world(s, w);
    struct Spec { int kind, work, parts; long pattern; };
    std::vector<std::vector<Spec>> plan;
    std::vector<int> foreign;            // where a task of another kind is among them
    int n = s.size(1, 6);
    for (int b = 0; b < n; b++)
    {
        std::vector<Spec> v;
        for (int i = s.chance(0.1) ? 0 : s.size(0, 30); i > 0; i--)
        {
            Spec t;
            t.kind = s.range(0, 1);
            t.work = s.chance(0.5) ? 0 : s.size(0, 60);
            t.parts = s.chance(0.7) ? 1 : s.range(1, 4);
            t.pattern = t.parts > 1 ? s.draw(15) : s.chance(0.1) ? 1 : 0;
            v.push_back(t);
        }
        plan.push_back(v);
        foreign.push_back(s.chance(0.12) ? (int)s.index(v.size() + 1) : -1);
        if (s.noting()) { s.note() << "batch of " << v.size(); if (foreign.back() >= 0) s.note() << " with a task that is no MPI task at " << foreign.back(); s.note() << "\n"; }
    }
    long key = 0;
    std::string problem;
    std::map<int, long> counted, reported_counts;
    bool stats_ok = true;
    size_t stats_size = 0;
    auto server = [&]
    {
        MpiWorkerPool pool;
        if (!pool.IsValid()) { problem = "a pool with workers is not valid"; return; }
        for (size_t b = 0; b < plan.size() && problem.empty(); b++)
        {
            std::vector<std::shared_ptr<IMpiTask>> own;
            std::vector<const ITask*> tasks;
            long first = key;
            for (auto& t : plan[b])
            {
                if (t.kind == 0) { auto p = std::make_shared<Task<0>>(); p->key = key++; p->work = t.work; p->parts = t.parts; p->pattern = t.pattern; own.push_back(p); }
                else { auto p = std::make_shared<Task<1>>(); p->key = key++; p->work = t.work; p->parts = t.parts; p->pattern = t.pattern; own.push_back(p); }
                tasks.push_back(own.back().get());
            }
            Plain plain;
            if (foreign[b] >= 0)
            {
                tasks.insert(tasks.begin() + foreign[b], &plain);
                try { pool.DoTasks(tasks); problem = "a task that is no MPI task was accepted"; }
                catch (const std::logic_error&) {}
                for (long k = first; k < key; k++) g_done[k];       // done or not
                continue;
            }
            g_targets.clear();
            std::vector<ITaskResult::shared_ptr> r = pool.DoTasks(tasks);
            std::vector<bool> busy(w.size);
            for (size_t i = 0; i < g_targets.size() && i + 1 < (size_t)w.size; i++)
            {
                if (busy[g_targets[i]]) { problem = "rank " + show(g_targets[i]) + " gets a second task of batch " + show(b) + " while others have none: " + show(g_targets); break; }
                busy[g_targets[i]] = true;
            }
            if (!problem.empty()) break;
            if (r.size() != tasks.size()) { problem = show(r.size()) + " results for " + show(tasks.size()) + " tasks"; break; }
            for (size_t i = 0; i < r.size() && problem.empty(); i++)
            {
                Result* x = dynamic_cast<Result*>(r[i].get());
                if (!x) { problem = "result " + show(i) + " is missing"; break; }
                std::vector<double> want;
                auto fill = [&](const auto& t) { for (int p = 0; p < t.parts; p++) want.push_back(t.Value(p)); };
                if (plan[b][i].kind == 0) fill(dynamic_cast<const Task<0>&>(*own[i])); else fill(dynamic_cast<const Task<1>&>(*own[i]));
                if (x->parts != want) problem = "task " + show(i) + " of batch " + show(b) + " has the result " + show(x->parts) + " instead of " + show(want);
            }
            for (long k = first; k < key && problem.empty(); k++)
            {
                auto& d = g_done[k];
                if (d.size() != 1 || d[0] < 1) { problem = "task " + show(k - first) + " of batch " + show(b) + " was done by the ranks " + show(d) + " when the batch returned"; break; }
                counted[d[0]]++;
            }
            std::vector<WorkerStatistics> st = pool.GetStatistics();
            std::map<int, long> now;
            for (auto& e : st) { now[e.get_id()] += e.get_counted(); if (e.get_errors() != 0) stats_ok = false; }
            stats_size = st.size();
            if (problem.empty() && stats_ok && st.size() == now.size() && plan.size() && std::count(foreign.begin(), foreign.begin() + b + 1, -1) == (long)b + 1 && now != counted)
                problem = "the statistics of the workers are wrong after batch " + show(b);
        }
    };
    auto worker = [&](int) { MpiWorkerPool pool; };
    mpi_model::Outcome o = mpi_model::run(w, server, worker);
    check(problem.empty(), problem);
    check(o.problem.empty(), "MPI: ", o.problem);
    check(o.errors[0].empty(), "the server ended with an exception: ", o.errors[0]);
    mw::verify_world(w, o);
    check(stats_ok, "errors are reported, but there were none");
    for (int i = 1; i < w.size; i++)
    {
        check(w.exit_code[i] == 0, "worker ", i, " ended with ", w.exit_code[i], " instead of exit(0)");
        check(w.environments[i] == 0 && w.communicators[i] == 0, "worker ", i, " ended without finalizing MPI");
    }
    check(w.environments[0] == 0 && w.communicators[0] == 0, "the server did not finalize MPI");
    for (auto& d : g_done) check(d.second.size() <= 1, "a task was done ", d.second.size(), " times");
    if (key > 1 && w.size > 2) s.nontrivial();
    if (w.synchronous) s.label("synchronous sends");
    if (std::count(foreign.begin(), foreign.end(), -1) < n) s.label("a task that is no MPI task");
    if (plan[0].size() >= (size_t)w.size) s.label("more tasks than workers");
}

static void alone(Src& s)
{
    mpi_model::World w;
    w.size = 1;
    int n = s.range(0, 3);
    s.note("tasks", n);
    std::string problem;
    mpi_model::Outcome o = mpi_model::run(w, [&]
    {
        MpiWorkerPool pool;
        if (pool.IsValid()) problem = "a pool without workers is valid";
        std::vector<Task<0>> t(n);
        std::vector<const ITask*> q;
        for (auto& e : t) q.push_back(&e);
        try { pool.DoTasks(q); problem = "a pool without workers accepted tasks"; }
        catch (const std::runtime_error&) {}
    }, [](int) {});
    check(problem.empty(), problem);
    check(o.problem.empty() && o.errors[0].empty(), o.problem, o.errors[0]);
    s.nontrivial();
}

// chains of calls
static void chain(Src& s)
{
    mpi_model::World w;
    w.size = 2;
    w.rng = s.draw(0xffffffff);
    w.late = s.range(0, 200);
    w.synchronous = false;
    int n = s.size(1, 8);
    std::vector<int> kind;      // 0 without a request, 1 with one
    for (int i = 0; i < n; i++) kind.push_back(s.range(0, 1));
    std::vector<int> ops;
    for (int i = s.size(5, 60); i > 0; i--) ops.push_back(s.weighted({4, 3, 2}));
    s.note("calls", kind);
    s.note("operations", ops);
    std::string problem;
    size_t made = 0, refused = 0;
    mpi_model::Outcome o = mpi_model::run(w, [&]
    {
        boost::mpi::communicator c;
        std::vector<double> got(n, -1);
        std::vector<size_t> order;
        AsyncCallChain::shared_ptr ch;
        for (int i = 0; i < n; i++)
        {
            AsyncCallChain::AsyncFunctionCall f = [&, i]() -> boost::optional<boost::mpi::request>
            {
                order.push_back(i);
                if (kind[i]) return c.irecv(1, 0, got[i]);
                return boost::optional<boost::mpi::request>();
            };
            if (!ch) ch = AsyncCallChain::CreateAsyncCallChain(f); else ch->Add(f);
        }
        bool finished = true;
        for (size_t i = 0; i < ops.size() + 10000 && problem.empty(); i++)
        {
            int op = i < ops.size() ? ops[i] : (int)(i & 1);
            if (ch->WillBeNextCall() != (made < (size_t)n)) { problem = "a next call is announced wrongly after " + show(made) + " of " + show(n); break; }
            if (op == 0)
            {
                bool was = finished;
                finished = ch->IsCurrentCallFinished();
                if (was && !finished) { problem = "a finished call is unfinished again"; break; }
                if (finished && made && kind[made - 1] && got[made - 1] != 100.0 + made - 1) { problem = "call " + show(made - 1) + " is finished before its message came"; break; }
            }
            else if (op == 1 && made < (size_t)n)
            {
                size_t before = order.size();
                try { ch->MakeNextCall(); }
                catch (const std::runtime_error&)
                {
                    if (finished) { problem = "the call after a finished one is refused"; break; }
                    if (order.size() != before) { problem = "a refused call was made"; break; }
                    refused++;
                    continue;
                }
                if (order.size() != before + 1 || order.back() != made) { problem = "instead of call " + show(made) + " were made " + show(order); break; }
                if (made && kind[made - 1] && got[made - 1] != 100.0 + made - 1) { problem = "the next call is made before the message of call " + show(made - 1) + " came"; break; }
                made++;
                finished = !kind[made - 1];
                if (finished && !ch->IsCurrentCallFinished()) { problem = "a call without a request does not finish"; break; }
            }
            else mpi_model::pause();
            if (made == (size_t)n && finished && i >= ops.size()) break;
        }
        if (problem.empty() && made != (size_t)n) problem = "only " + show(made) + " of " + show(n) + " calls could be made";
    }, [&](int)
    {
        boost::mpi::communicator c;
        for (int i = 0; i < n; i++)
            if (kind[i]) { for (int k = mpi_model::world->next() % 20; k > 0; k--) mpi_model::pause(); c.send(0, 0, 100.0 + i); }
    });
    check(problem.empty(), problem);
    mw::verify_world(w, o);
    check(o.errors[0].empty(), o.errors[0]);
    if (n > 1) s.nontrivial();
    if (refused) s.label("a call refused");
}

Property pbt::property()
{
    Property p = {"C32",
        {{"batches", 8, batches}, {"alone", 1, alone}, {"chain", 3, chain}},
        4000, 200000,
        "The MPI pool (compiled with BUILD_WITH_MPI) runs on a model of an MPI world: 2 to 6 ranks as threads of which one runs at a time, the next one chosen by a "
        "generated stream with generated speeds at every MPI operation and sleep, sends that wait for their receives or do not, tests that find a message late. Histories "
        "of up to 6 batches of up to 30 tasks of two types with results of 1 to 4 parts and any duration, some batches with a task that is no MPI task. Every task is "
        "followed to the rank that does it. Non-trivial: at least two tasks and two workers, or several calls in a chain.",
        {"The model delivers the messages of a channel in order, to receives in the order they were posted, as MPI does; real network failures are not modelled.",
         "MPI is not part of the repository's default build here; the code is compiled against the model instead of Boost.MPI."}};
    p.batch = 60;
    return p;
}
