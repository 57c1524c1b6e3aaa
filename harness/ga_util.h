// Runs of the genetic algorithm, recorded by a model objective and a generation callback.
#ifndef GA_UTIL_H
#define GA_UTIL_H
#include "params.h"
#include "rand_ctl.h"
#include "processors.h"
#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <boost/thread.hpp>
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/linear_mutator.h>
#include <k52/optimization/flip_bit_mutator.h>

namespace ga
{
using namespace par;
typedef std::vector<double> Point;

inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

struct Function
{
    int kind = 0;
    uint64_t seed = 0;
    double scale = 1;
    double operator()(const std::vector<Leaf>& l) const
    {
        double sum = 0;
        uint64_t h = seed;
        for (auto& e : l)
        {
            double u = e.hi > e.lo ? (e.v - e.lo) / (e.hi - e.lo) : 0;
            h = mix(h);
            sum += (h & 1) ? u : 1 - u;
        }
        for (auto& e : l) { uint64_t b; memcpy(&b, &e.v, 8); h = mix(h ^ b); }
        double r = (double)(h >> 11) / 9007199254740992.0;
        switch (kind)
        {
        case 0: return scale;                               // all equal
        case 1: return sum * scale;
        case 2: return r * scale;                           // no structure
        case 3: return r > 0.9 ? scale : 0;                 // needles
        case 4: return std::floor(sum * 3) * scale;         // ties
        default: return (0.5 * sum + 0.01 * r) * scale;
        }
    }
    const char* name() const
    {
        static const char* const n[] = {"constant", "linear", "random", "needles", "steps", "rough"};
        return n[kind];
    }
};
inline Function gen_function(pbt::Src& s)
{
    Function f;
    f.kind = s.range(0, 5);
    f.seed = s.draw(0xffff);
    f.scale = s.chance(0.6) ? 1 : s.chance(0.2) ? 0 : std::pow(10, s.range(-12, 12));
    return f;
}

struct ObjectiveError : public std::runtime_error { ObjectiveError() : std::runtime_error("objective") {} };

struct Eval { Point p; double f; };
struct Log
{
    std::mutex m;
    std::vector<Eval> evals;
    bool all_valid = true;
    Point invalid;
    long fail_at = -1;       // throw in that evaluation
    long negative_at = -1;   // return a negative value in that evaluation
    bool no_number = false;  // or one that is no number
};

class Objective : public DiscreteObjectiveFunction
{
public:
    Objective(Function f, std::shared_ptr<Log> log) : f_(f), log_(log) {}
    virtual double operator()(const IDiscreteParameters* const p) const
    {
        std::vector<Leaf> l;
        leaves(p, l);
        double v = f_(l);
        std::lock_guard<std::mutex> lock(log_->m);
        long n = log_->evals.size();
        if (!(in_range(p) && p->CheckConstraints())) { log_->all_valid = false; log_->invalid = values(p); }
        if (n == log_->negative_at) v = log_->no_number ? NAN : -1 - v;
        log_->evals.push_back({values(p), v});
        if (n == log_->fail_at) throw ObjectiveError();
        return v;
    }
    virtual Objective* Clone() const { return new Objective(f_, log_); }
private:
    Function f_;
    std::shared_ptr<Log> log_;
};

// Mutates with generated odds, from a stream of its own; can do nothing at all.
class Mutator : public IMutator
{
public:
    Mutator(double p, uint64_t seed) : p_(p), state_(seed) {}
    std::vector<MutationContext> contexts;
    virtual void ApplyNewMutationContext(const MutationContext& c) { contexts.push_back(c); }
    virtual void MutateChromosome(ChromosomeType* c)
    {
        if (p_ <= 0) return;
        for (size_t i = 0; i < c->size(); i++)
        {
            state_ = mix(state_);
            if ((state_ >> 11) / 9007199254740992.0 < p_) (*c)[i] = !(*c)[i];
        }
    }
private:
    double p_;
    uint64_t state_;
};

// any mutator, and how often it was used
inline long g_mutations = 0;
class Counted : public IMutator
{
public:
    explicit Counted(IMutator::shared_ptr m) : m_(m) {}
    virtual void ApplyNewMutationContext(const MutationContext& c) { m_->ApplyNewMutationContext(c); }
    virtual void MutateChromosome(ChromosomeType* c) { g_mutations++; m_->MutateChromosome(c); }
private:
    IMutator::shared_ptr m_;
};

struct Config
{
    Desc d;
    int population = 2, elites = 0, generations = 1;
    int mutator = 0;                 // 0 nothing, 1 of the harness, 2 linear, 3 flip bit
    double p = 0, q = 0;
    uint64_t seed = 0;
    double cache = 0, stop = 1e300;
    std::string file;

    IMutator::shared_ptr make_mutator() const
    {
        switch (mutator)
        {
        case 0: return IMutator::shared_ptr(new Mutator(0, seed));
        case 1: return IMutator::shared_ptr(new Mutator(p, seed));
        case 2: return IMutator::shared_ptr(new LinearMutator(p, q));
        default: return IMutator::shared_ptr(new FlipBitMutator(p));
        }
    }
    static IMutator::shared_ptr counted(IMutator::shared_ptr m) { return IMutator::shared_ptr(new Counted(m)); }
    std::string text() const
    {
        std::ostringstream o;
        o << "population " << population << ", elite pairs " << elites << ", generations " << generations << ", mutator "
          << (mutator == 0 ? "none" : mutator == 1 ? "plain " : mutator == 2 ? "linear " : "flip bit ");
        if (mutator) pbt::put(o, p);
        if (mutator == 2) { o << ".."; pbt::put(o, q); }
        o << ", cache "; pbt::put(o, cache);
        o << ", stop "; pbt::put(o, stop);
        return o.str();
    }
};

inline size_t leaf_count(const Desc& d)
{
    IDiscreteParameters::shared_ptr p = make(d);
    std::vector<Leaf> l;
    leaves(p.get(), l);
    return l.size();
}

// every chromosome of these parameters is valid
inline bool always_valid(const Desc& d)
{
    if (d.kind == Desc::Int) { unsigned span = (unsigned)(d.imax - d.imin); return (span & (span + 1)) == 0; }
    if (d.kind == Desc::Composite) { for (auto& k : d.kids) if (!always_valid(k)) return false; return true; }
    return false;
}

inline Config gen_config(pbt::Src& s, int max_population = 24, int max_generations = 12)
{
    Config c;
    do { c.d = gen(s, 1, s.flip() ? 5 : 24); } while (leaf_count(c.d) > 5 || (leaf_count(c.d) == 0 && !s.chance(0.05)));
    if (s.chance(0.02)) c.d = gen_long(s);
    c.population = 2 * s.size(1, max_population / 2);
    if (max_population >= 24 && s.chance(0.02)) { if (s.flip()) c.population = 2 * s.range(12, 80); else max_generations = 80; }
    c.elites = s.chance(0.3) ? 0 : s.chance(0.1) ? c.population / 2 : s.chance(0.1) ? c.population : s.range(0, c.population / 2);
    c.generations = s.size(1, max_generations);
    c.mutator = s.range(0, 3);
    c.p = c.mutator == 3 ? 1.0 / s.range(2, 40) : s.chance(0.2) ? 0 : s.unit() * (s.flip() ? 0.5 : 0.1);
    c.q = s.chance(0.2) ? 0 : s.unit() * 0.5;
    c.seed = s.draw(0xffff);
    return c;
}

struct Reported
{
    double average = 0, best = 0;
    Point best_point;
    size_t number = 0;
    int hits = 0, invalid = 0;
    std::vector<IndividualStatistics> individuals;
    size_t evals = 0;                // evaluations until then
    long mutations = 0;              // chromosomes mutated until then
    std::shared_ptr<GenerationStatistics> kept;   // what a user keeps of it
};

inline Reported read_report(const GenerationStatistics& st)
{
    Reported r;
    r.average = st.get_average_fitness();
    r.best = st.get_best_fitness();
    r.best_point = values(dynamic_cast<const IDiscreteParameters*>(st.get_best_parameters()));
    r.number = st.get_number_of_generation();
    r.hits = st.get_cache_hits();
    r.invalid = st.get_invalid_chromosomes();
    for (auto& i : st.get_all_individuals_statistics()) r.individuals.push_back(i);
    return r;
}

struct Run
{
    std::shared_ptr<Log> log;
    std::vector<Reported> reports;
    std::map<size_t, std::vector<std::string>> save;    // files to write at a generation
    std::string error;               // of an exception
    std::string error_type;
    Point result;
};
inline Run* g_run = nullptr;
inline void on_generation(GenerationStatistics st)
{
    Reported r = read_report(st);
    r.kept.reset(new GenerationStatistics(st));
    if (!g_run->reports.empty() && g_run->reports.size() % 3 == 0) *r.kept = *g_run->reports.back().kept, *r.kept = st;   // or assigned
    { std::lock_guard<std::mutex> lock(g_run->log->m); r.evals = g_run->log->evals.size(); }
    r.mutations = g_mutations;
    for (auto& f : g_run->save[g_run->reports.size()]) st.SaveCurrentPopulationToFile(f);
    g_run->reports.push_back(r);
}

inline GeneticAlgorithm::shared_ptr create(const Config& c, IMutator::shared_ptr m)
{
    GeneticAlgorithm::shared_ptr g = GeneticAlgorithm::Create(c.population, c.elites, c.generations, m, c.cache, c.stop, c.file);
    pbt::check(g != nullptr, "a valid configuration is rejected: ", c.text());
    return g;
}

// optimizes the parameters, recording everything
inline void optimize(GeneticAlgorithm& g, const Function& f, IDiscreteParameters* p, Run& run, bool report = true)
{
    if (!run.log) run.log.reset(new Log());
    Objective o(f, run.log);
    g_run = &run;
    g_mutations = 0;
    g.OnNextGenerationReadyConnect(report ? on_generation : nullptr);
    try { g.Optimize(o, p, true); }
    catch (const std::exception& e)
    {
        run.error = e.what();
        run.error_type = dynamic_cast<const ObjectiveError*>(&e) ? "objective" : dynamic_cast<const std::runtime_error*>(&e) ? "runtime_error"
            : dynamic_cast<const std::invalid_argument*>(&e) ? "invalid_argument" : dynamic_cast<const std::logic_error*>(&e) ? "logic_error" : "exception";
    }
    g_run = nullptr;
    run.result = values(p);
    // copies of the reports stay what they were
    for (auto& r : run.reports)
    {
        Reported k = read_report(*r.kept);
        bool same = k.average == r.average && k.best == r.best && k.best_point == r.best_point && k.number == r.number && k.hits == r.hits && k.invalid == r.invalid && k.individuals.size() == r.individuals.size();
        for (size_t i = 0; same && i < k.individuals.size(); i++)
            same = k.individuals[i].fitness == r.individuals[i].fitness && k.individuals[i].times_chosen_for_crossover == r.individuals[i].times_chosen_for_crossover;
        pbt::check(same, "a copy of the report of generation ", r.number, " has become one of generation ", k.number, " with average fitness ", k.average, ", best ", k.best, " at ", k.best_point);
        r.kept.reset();
    }
}

inline std::vector<std::vector<Eval>> split(const Run& r)
{
    std::vector<std::vector<Eval>> g;
    size_t at = 0;
    for (auto& e : r.reports)
    {
        g.push_back(std::vector<Eval>(r.log->evals.begin() + at, r.log->evals.begin() + e.evals));
        at = e.evals;
    }
    return g;
}
inline std::vector<Point> points(const std::vector<Eval>& v)
{
    std::vector<Point> r;
    for (auto& e : v) r.push_back(e.p);
    std::sort(r.begin(), r.end());
    return r;
}
}
#endif
