// C33: over MPI, parameters, optimisers and tasks arrive as they were sent, and results are those of a single process.
#include "mpi_util.h"
#include "opt_config.h"
#include <k52/parallel/worker_pool_factory.h>
#include "params.h"
#include <boost/mpi.hpp>
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/parallel/mpi/constants.h>
#include <k52/parallel/mpi/identifyable_objects_manager.h>
#include <optimization/count_objective_function_task.h>
#include <optimization/objective_function_task_result.h>
#include <optimization/optimization_task.h>
#include <optimization/optimization_task_result.h>
#include <parallel/mpi/mpi_worker_pool.h>
#include <typeinfo>
using namespace pbt;
using namespace opt;
using namespace k52::parallel::mpi;
using par::Desc;

typedef Function F;
static std::map<std::string, long> g_evaluations;        // "rank" -> number

// a discrete objective that tells on which rank it was evaluated
class Discrete : public DiscreteObjectiveFunction
{
public:
    Discrete(uint64_t seed) : seed_(seed) {}
    virtual double operator()(const IDiscreteParameters* const p) const
    {
        g_evaluations[std::to_string(mpi_model::my_rank)]++;
        mpi_model::work();
        return hash01(par::values(p), seed_);
    }
    virtual Discrete* Clone() const { return new Discrete(seed_); }
private:
    uint64_t seed_;
};

// takes time
class Slow : public ContinuousObjectiveFunction
{
public:
    Slow(const F& f, LogPtr log) : inner_(f, log), f_(f), log_(log) {}
    using ContinuousObjectiveFunction::operator();
    virtual double operator()(const std::vector<double>& x) const
    {
        g_evaluations[std::to_string(mpi_model::my_rank)]++;
        mpi_model::work();
        return inner_(x);
    }
    virtual Slow* Clone() const { return new Slow(f_, log_); }
private:
    Objective inner_;
    F f_;
    LogPtr log_;
};

static Point run_local(ContinuousOptimizer& o, const F& f, const Point& start, bool maximize, std::string& how)
{
    LogPtr log(new Log());
    log->most = 2000;
    log->store = false;
    ContinuousParametersArray p(start);
    try { o.Optimize(Objective(f, log), &p, maximize); how = "returned"; return p.GetValues(); }
    catch (TooLong&) { how = "too long"; }
    catch (std::exception& e) { how = std::string("threw ") + e.what(); }
    return Point();
}

// parameters and optimisers, one after another
static void transfer(Src& s)
{
    mpi_model::World w;
    mw::gen_world(s, w, 2);
    struct Item { int kind; Desc d; ChromosomeType mess; Point p, old; conf::Config c, oc; ContinuousOptimizer::shared_ptr from, to; };
    std::vector<Item> items;
    for (int i = s.size(1, 6); i > 0; i--)
    {
        Item e;
        e.kind = s.range(0, 2);
        if (e.kind == 0)
        {
            e.d = par::gen(s, 2);
            s.note("parameters", par::text(e.d));
            IDiscreteParameters::shared_ptr q = par::make(e.d);
            e.mess = par::chromosome(q.get());
            for (size_t k = 0; k < e.mess.size(); k++) e.mess[k] = s.flip();
        }
        else if (e.kind == 1)
        {
            for (int k = s.size(0, 8); k > 0; k--) e.p.push_back(s.chance(0.1) ? (s.flip() ? std::nan("") : HUGE_VAL) : simple_real(s, 100));
            for (int k = s.size(0, 8); k > 0; k--) e.old.push_back(simple_real(s, 100));
            s.note("values", e.p); s.note("instead of", e.old);
        }
        else
        {
            e.c = conf::gen_config(s);
            e.oc = conf::gen_config(s, e.c.k, e.c.k);
            e.from = e.c.make();
            e.to = e.oc.make();
            s.note("optimiser", e.c.text());
            s.note("instead of", e.oc.text());
        }
        items.push_back(e);
    }
    std::vector<IDiscreteParameters::shared_ptr> got_d(items.size());
    std::vector<Point> got_p(items.size());
    std::vector<ContinuousOptimizer::shared_ptr> got_o(items.size());
    std::string problem;
    mpi_model::Outcome o = mpi_model::run(w, [&]
    {
        boost::mpi::communicator c;
        for (auto& e : items)
        {
            if (e.kind == 0) par::make(e.d)->Send(&c, 1);
            else if (e.kind == 1) ContinuousParametersArray(e.p).Send(&c, 1);
            else
            {
                bool refused = false;
                try { e.from->Send(&c, 1); }
                catch (const std::logic_error&) { refused = true; }
                if (refused == e.c.clones()) { problem = e.c.text() + (refused ? " is not sent" : " is sent, although it cannot be received"); return; }
            }
        }
    }, [&](int)
    {
        boost::mpi::communicator c;
        for (size_t i = 0; i < items.size(); i++)
        {
            Item& e = items[i];
            if (e.kind == 0)
            {
                got_d[i] = par::make(e.d);
                got_d[i]->SetFromChromosome(e.mess.begin(), e.mess.end());
                got_d[i]->Receive(&c, 0);
            }
            else if (e.kind == 1) { ContinuousParametersArray a(e.old); a.Receive(&c, 0); got_p[i] = a.GetValues(); }
            else
            {
                got_o[i] = e.to;
                bool refused = false;
                try { got_o[i]->Receive(&c, 0); }
                catch (const std::logic_error&) { refused = true; }
                if (refused == e.c.clones()) { problem = e.c.text() + (refused ? " is not received" : " is received, although it cannot be"); return; }
            }
        }
    });
    check(problem.empty(), problem);
    mw::verify_world(w, o);
    check(o.errors[0].empty(), o.errors[0]);
    bool some = false;
    for (size_t i = 0; i < items.size(); i++)
    {
        Item& e = items[i];
        if (e.kind == 0)
        {
            IDiscreteParameters::shared_ptr q = par::make(e.d);
            ChromosomeType want = par::chromosome(q.get());
            check(par::bits(par::chromosome(got_d[i].get())) == par::bits(want), "the chromosome ", par::bits(want), " arrives as ", par::bits(par::chromosome(got_d[i].get())));
            q->SetFromChromosome(want.begin(), want.end());
            check(conf::same(par::values(got_d[i].get()), par::values(q.get())), "the values ", par::values(q.get()), " arrive as ", par::values(got_d[i].get()));
            if (want.size() && want != e.mess) some = true;
            s.label("discrete parameters");
        }
        else if (e.kind == 1)
        {
            check(conf::same(got_p[i], e.p), "the values ", e.p, " arrive as ", got_p[i]);
            if (!conf::same(e.p, e.old)) some = true;
            s.label("continuous parameters");
        }
        else if (e.c.clones())
        {
            F f = opt::gen_function(s, {F::Quadratic, F::Absolute, F::Rosenbrock, F::Waves, F::Peaks});
            Point start;
            for (int k = s.range(1, 3); k > 0; k--) start.push_back(simple_real(s, 10));
            bool maximize = s.chance(0.2);
            s.note("function", f.text()); s.note("from", start);
            std::string a, b;
            Point x = run_local(*e.c.make(), f, start, maximize, a), y = run_local(*got_o[i], f, start, maximize, b);
            check(a == b && conf::same(x, y), e.c.text(), " ", a, " with ", x, " where it was sent, and ", b, " with ", y, " where it arrived");
            check(got_o[i]->get_name() == e.c.make()->get_name(), "its name arrives as ", got_o[i]->get_name());
            s.label(conf::kNames[e.c.k]);
            some = true;
        }
        else s.label("refused");
    }
    if (some) s.nontrivial();
}

// the tasks of the optimisers, and their results, through the pool's own protocol
static void tasks(Src& s)
{
    mpi_model::World w;
    mw::gen_world(s, w, 4);
    F f = opt::gen_function(s, {F::Quadratic, F::Absolute, F::Rosenbrock, F::Waves, F::Peaks});
    LogPtr log(new Log());
    log->most = 100000;
    log->store = false;
    Slow continuous(f, log);
    uint64_t seed = s.draw(0xffff);
    Discrete discrete(seed);
    Desc d = par::gen(s, 1, 12);
    s.note("function", f.text()); s.note("discrete parameters", par::text(d));
    IdentifyableObjectsManager& m = IdentifyableObjectsManager::Instance();
    IDiscreteParameters::shared_ptr prototype = par::make(d);
    size_t size = prototype->GetChromosomeSize();
    m.RegisterObject(continuous);
    m.RegisterObject(discrete);
    m.RegisterObject(*prototype);
    m.RegisterObject(ContinuousParametersArray(Point()));
    m.RegisterObject(CountObjectiveFunctionTask());
    m.RegisterObject(OptimizationTask());
    struct T { int kind; IDiscreteParameters::shared_ptr dp; Point p; conf::Config c; bool maximize; };
    std::vector<T> plan;
    bool some = false;
    for (int i = s.size(1, 10); i > 0; i--)
    {
        T t;
        t.kind = s.weighted({3, 1, 3});
        t.maximize = s.chance(0.3);
        t.dp = par::make(d);
        ChromosomeType c(size);
        for (size_t k = 0; k < size; k++) c[k] = s.flip();
        t.dp->SetFromChromosome(c.begin(), c.end());
        for (int k = s.range(1, 3); k > 0; k--) t.p.push_back(simple_real(s, 10));
        t.c = conf::gen_config(s, conf::HJ, conf::RB);
        if (t.kind == 2)
        {
            std::string how;
            run_local(*t.c.make(), f, t.p, t.maximize, how);
            if (how != "returned") t.kind = 1;
        }
        if (t.kind == 0) s.note("count at", par::bits(c));
        else if (t.kind == 1) s.note("count at", t.p);
        else { s.note("optimise from", t.p); s.note("by", t.c.text()); s.note("maximize", t.maximize); m.RegisterObject(*t.c.make()); s.label(conf::kNames[t.c.k]); }
        plan.push_back(t);
    }
    std::string problem;
    typedef std::shared_ptr<k52::parallel::ITask> TP;
    auto make = [&](const T& t, std::vector<boost::shared_ptr<IParameters>>& keep) -> TP
    {
        if (t.kind == 0) return TP(new CountObjectiveFunctionTask(t.dp.get(), &discrete));
        keep.push_back(boost::shared_ptr<IParameters>(new ContinuousParametersArray(t.p)));
        if (t.kind == 1) return TP(new CountObjectiveFunctionTask(keep.back().get(), &continuous));
        return TP(new OptimizationTask(t.c.make().get(), keep.back().get(), &continuous, t.maximize));
    };
    std::vector<Point> got;
    auto read = [&](k52::parallel::ITaskResult* r)
    {
        if (ObjectiveFunctionTaskResult* v = dynamic_cast<ObjectiveFunctionTaskResult*>(r)) return Point(1, v->get_objective_function_value());
        if (OptimizationTaskResult* v = dynamic_cast<OptimizationTaskResult*>(r))
            if (IContinuousParameters* p = dynamic_cast<IContinuousParameters*>(v->get_optimal_parameters().get())) return p->GetValues();
        return Point(1, -12345);
    };
    g_evaluations.clear();
    mpi_model::Outcome o = mpi_model::run(w, [&]
    {
        MpiWorkerPool pool;
        size_t cut = plan.size() > 1 && seed % 2 ? plan.size() / 2 : 0;
        for (int part = 0; part < 2; part++)
        {
            std::vector<boost::shared_ptr<IParameters>> keep;
            std::vector<TP> own;
            std::vector<const k52::parallel::ITask*> q;
            for (size_t i = part ? cut : 0; i < (part ? plan.size() : cut); i++) { own.push_back(make(plan[i], keep)); q.push_back(own.back().get()); }
            for (auto& r : pool.DoTasks(q)) got.push_back(read(r.get()));
        }
    }, [](int) { MpiWorkerPool pool; });
    long on_server = g_evaluations.count("0") ? g_evaluations["0"] : 0;
    check(problem.empty(), problem);
    check(o.problem.empty(), "MPI: ", o.problem);
    check(o.errors[0].empty(), o.errors[0]);
    mw::verify_world(w, o);
    check(got.size() == plan.size(), got.size(), " results for ", plan.size(), " tasks");
    check(on_server == 0, on_server, " evaluations were made by the server");
    for (size_t i = 0; i < plan.size(); i++)
    {
        std::vector<boost::shared_ptr<IParameters>> keep;
        boost::shared_ptr<k52::parallel::ITaskResult> r(make(plan[i], keep)->Perform());
        Point want = read(r.get());
        TP original = make(plan[i], keep);
        TP clone(dynamic_cast<k52::parallel::mpi::IMpiTask&>(*original).Clone());
        original.reset();
        boost::shared_ptr<k52::parallel::ITaskResult> of_clone(clone->Perform());
        check(conf::same(read(of_clone.get()), want), "task ", i, " has the result ", want, ", and its clone ", read(of_clone.get()));
        check(conf::same(got[i], want), "task ", i, " has the result ", got[i], " over MPI, and ", want, " without");
        if (plan[i].kind == 2 && !conf::same(want, plan[i].p)) some = true;
    }
    if (some || plan.size() > 2) s.nontrivial();
}

static bool g_watch = false;
static std::string g_unregistered;
static void environment_created()
{
    if (!g_watch || mpi_model::my_rank != 0) return;
    const char* names[2] = {typeid(CountObjectiveFunctionTask).name(), typeid(OptimizationTask).name()};
    int found = 0;
    for (const char* n : names)
        try { IdentifyableObjectsManager::Instance().GetObject(n); found++; } catch (const std::invalid_argument&) {}
    if (!found) g_unregistered = "the pool is created, and so are the workers started, before the tasks are registered";
}

// the factory gives one MPI pool to a process
static void only_one()
{
    typedef k52::parallel::WorkerPoolFactory W;
    check(!W::CanCreateWorkerPool(W::kMpiWorkerPool), "a second MPI pool is said to be possible");
    must_throw<std::runtime_error>("a second MPI pool", [] { W::CreateWorkerPool(W::kMpiWorkerPool); });
    check(W::CanCreateWorkerPool(W::kSequentialWorkerPool), "a sequential pool is said to be impossible");
    k52::parallel::IWorkerPool::shared_ptr p = W::CreateBestWorkerPool();
    check(p && p->IsValid() && !dynamic_cast<MpiWorkerPool*>(p.get()), "the best pool is not valid, or a second one of MPI");
}

// whole runs: the genetic algorithm or random search with the pool of the factory, against a run without workers
static void whole(Src& s)
{
    rc::begin(s, true);
    mpi_model::World w;
    mw::gen_world(s, w, 4);
    if (s.chance(0.1)) w.size = 1;
    bool genetic = s.flip();
    rc::Point at = rc::Point::here();
    std::string problem;
    std::vector<Point> out;         // per generation
    long evaluations[2];
    g_unregistered.clear();
    std::function<void()> run;
    std::vector<LogPtr> keep;
    uint64_t seed = s.draw(0xffff);
    bool some = false;
    Desc d;
    F f;
    conf::Config c;
    // a process may have further optimisers, beside or after the one that has the MPI pool
    int times = s.chance(0.3) ? 2 : 1;
    bool beside = times > 1 && s.flip();
    if (times > 1) s.note("two optimisers", std::string(beside ? "side by side" : "one after the other"));
    if (genetic)
    {
        do d = par::gen(s, 1, 10); while (par::make(d)->GetChromosomeSize() == 0 || !par::often_valid(d));
        int population = 2 * s.size(1, 8), elites = s.range(0, population / 2), generations = s.size(1, 6);
        double p = 1.0 / s.range(2, 20), cache = s.flip() ? 0 : 1;
        s.note("parameters", par::text(d)); s.note("population", population); s.note("elite pairs", elites); s.note("generations", generations);
        s.note("mutation", p); s.note("cache", cache);
        run = [=, &out]
        {
            Discrete o(seed);
            IDiscreteParameters::shared_ptr q = par::make(d);
            IdentifyableObjectsManager::Instance().RegisterObject(o);
            IdentifyableObjectsManager::Instance().RegisterObject(*q);
            std::vector<GeneticAlgorithm::shared_ptr> alive;
            for (int k = 0; k < times; k++)
            {
            GeneticAlgorithm::shared_ptr g = GeneticAlgorithm::Create(population, elites, generations, IMutator::shared_ptr(new FlipBitMutator(p)), cache, 1e300, "");
            if (beside) alive.push_back(g);
            static std::vector<Point>* to;
            to = &out;
            g->OnNextGenerationReadyConnect([](GenerationStatistics st)
            {
                to->push_back(par::values(dynamic_cast<const IDiscreteParameters*>(st.get_best_parameters())));
                to->push_back(Point{st.get_average_fitness(), st.get_best_fitness(), (double)st.get_cache_hits(), (double)st.get_number_of_generation()});
            });
            g->Optimize(o, q.get(), true);
            out.push_back(par::values(q.get()));
            }
            if (times > 1) only_one();
        };
        some = population > 2;
    }
    else
    {
        f = opt::gen_function(s, {F::Quadratic, F::Absolute, F::Rosenbrock, F::Waves, F::Peaks});
        c = conf::gen_config(s, conf::HJ, conf::RB);
        c.n = std::min<size_t>(c.n, 20);
        size_t n = s.size(1, 12);
        int dim = s.range(1, 3);
        bool maximize = s.chance(0.3);
        s.note("function", f.text()); s.note("optimiser", c.text()); s.note("points", n); s.note("dimension", dim); s.note("maximize", maximize);
        run = [=, &out, &keep]
        {
            ContinuousParametersArray p(Point(dim, 0.0));
            IdentifyableObjectsManager::Instance().RegisterObject(p);
            ContinuousOptimizer::shared_ptr inner = c.make();
            IdentifyableObjectsManager::Instance().RegisterObject(*inner);
            std::vector<std::shared_ptr<RandomSearch>> alive;
            for (int k = 0; k < times; k++)
            {
                LogPtr log(new Log());
                log->store = false;
                log->most = 20000;
                keep.push_back(log);
                Slow o(f, log);
                IdentifyableObjectsManager::Instance().RegisterObject(o);
                std::shared_ptr<RandomSearch> search(new RandomSearch(n, -5, 5, inner.get()));
                if (beside) alive.push_back(search);
                search->Optimize(o, &p, maximize);
                out.push_back(p.GetValues());
            }
            if (times > 1) only_one();
        };
        some = n > 1;
    }
    g_processors = 1;
    g_evaluations.clear();
    g_watch = true;
    mpi_model::environment_hook = environment_created;
    mpi_model::Outcome o = mpi_model::run(w, run, [](int) { MpiWorkerPool pool; });
    g_watch = false;
    for (auto& l : keep) if (l->count > 20000) throw Discard();      // an optimiser that does not end
    check(g_unregistered.empty(), g_unregistered);
    check(o.problem.empty(), "MPI: ", o.problem);
    check(o.errors[0].empty(), "ended with an exception: ", o.errors[0]);
    mw::verify_world(w, o);
    check(w.environments[0] == 0, "the server did not finalize MPI");
    for (int i = 1; i < w.size; i++) check(w.exit_code[i] == 0 && w.environments[i] == 0, "worker ", i, " has not ended as it should");
    evaluations[0] = 0;
    long most = 0;
    for (auto& e : g_evaluations) { evaluations[0] += e.second; if (e.first != "0") most += e.second; }
    std::vector<Point> first = out;
    out.clear();
    g_evaluations.clear();
    at.restore();
    run();
    evaluations[1] = 0;
    for (auto& e : g_evaluations) evaluations[1] += e.second;
    check(first.size() == out.size(), first.size(), " reports and results over MPI, ", out.size(), " without");
    for (size_t i = 0; i < out.size(); i++) check(conf::same(first[i], out[i]), "over MPI ", first[i], " is reported or returned, without it ", out[i]);
    check(evaluations[0] == evaluations[1], evaluations[0], " evaluations over MPI, ", evaluations[1], " without");
    if (w.size == 1) s.label("without workers"); else check(most > 0, "nothing was evaluated by a worker");
    s.label(genetic ? "genetic algorithm" : "random search");
    if (times > 1) s.label(beside ? "two optimisers side by side" : "two optimisers in turn");
    if (some && w.size > 2) s.nontrivial();
}

Property pbt::property()
{
    Property p = {"C33",
        {{"transfer", 3, transfer}, {"tasks", 3, tasks}, {"whole", 2, whole}},
        2500, 100000,
        "Generated parameters of every kind, optimisers and tasks are sent between ranks of a model of MPI (as for C32) into objects of another state; whole runs of the genetic "
        "algorithm and of random search with an inner optimiser use the pool of the factory, with 0 to 3 workers. Oracles: the object sent, and the same run without MPI from the "
        "same state of the random generator; every message is received. Non-trivial: something arrives that the receiver did not hold; two workers and several evaluations.",
        {"The model delivers messages of a channel in order, as MPI does.", "MPI is not part of the repository's default build here; the code is compiled against the model instead of Boost.MPI.",
         "Parameters are received by prototypes of the same structure, as the registry provides."}};
    p.batch = 1;
    p.cpu_limit = 60;
    p.before_case = no_plot;
    return p;
}
