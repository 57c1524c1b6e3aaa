// C23: the fitness cache changes only the number of evaluations.
#include "ga_util.h"
using namespace pbt;
using namespace ga;

namespace
{
struct Call { Function f; Point start; std::vector<Point> initial; bool report; long fail_at; };

struct Outcome { std::vector<Run> runs; };

// the same calls on one object, from the same random history
Outcome play(const Config& c, const std::vector<Call>& calls, const rc::Point& from)
{
    from.restore();
    Outcome o;
    IMutator::shared_ptr m = c.make_mutator();
    GeneticAlgorithm::shared_ptr g = create(c, m);
    for (auto& call : calls)
    {
        IDiscreteParameters::shared_ptr p = make(c.d);
        Run r;
        r.log.reset(new Log());
        r.log->fail_at = call.fail_at;
        optimize(*g, call.f, p.get(), r, call.report);
        o.runs.push_back(r);
        if (!r.error.empty() && r.error_type != "objective") break;   // over the limit: nothing to compare any more
    }
    return o;
}
}

static void same(Src& s)
{
    Config c = gen_config(s, 30, 14);
    // few chromosomes, so that they come again
    if (s.flip()) { do { c.d = gen(s, 1, 3); } while (leaf_count(c.d) > 3); }
    g_processors = s.chance(0.85) ? 1 : 2;
    bool ample = s.chance(0.7);
    if (s.chance(0.3)) c.stop = s.real(0, 3);
    Config with = c;
    with.cache = ample ? s.real(1, 100) : std::pow(10, -s.real(2, 7));
    s.note("parameters", text(c.d));
    s.note("configuration", with.text());
    std::vector<Call> calls;
    int n = s.chance(0.5) ? 1 : s.range(2, 4);
    for (int q = 0; q < n; q++)
    {
        Call k;
        k.f = gen_function(s);
        k.report = s.chance(0.9);
        k.fail_at = -1;
        calls.push_back(k);
        s.note("function", std::string(k.f.name()));
    }
    rc::begin(s, true);
    rc::Point from = rc::Point::here();
    Outcome a = play(c, calls, from), b = play(with, calls, from);
    long spared = 0;
    for (size_t q = 0; q < b.runs.size(); q++)
    {
        const Run &x = a.runs[q], &y = b.runs[q];
        check(x.error.empty(), "failed without a cache: ", x.error);
        if (!y.error.empty())
        {
            check(!ample, "failed with an ample cache: ", y.error);
            check(y.error_type == "runtime_error", "failed with a ", y.error_type, " at the limit: ", y.error);
            s.label("limit exceeded");
        }
        else check(y.result == x.result, "run ", q, " returned ", y.result, " with a cache, ", x.result, " without");
        // the generations
        check(y.error.empty() ? x.reports.size() == y.reports.size() : y.reports.size() <= x.reports.size(), y.reports.size(), " generations with a cache, ", x.reports.size(), " without");
        std::vector<std::vector<Eval>> gx = split(x), gy = split(y);
        std::map<Point, int> evaluated;
        for (size_t i = 0; i < y.reports.size(); i++)
        {
            const Reported &u = x.reports[i], &v = y.reports[i];
            check(u.average == v.average || std::fabs(u.average - v.average) <= 1e-12 * std::fabs(u.average), "generation ", i, " of run ", q, " has average fitness ", v.average, " with a cache, ", u.average, " without");
            check(u.best == v.best, "generation ", i, " of run ", q, " has best fitness ", v.best, " with a cache, ", u.best, " without");
            check(u.best_point == v.best_point, "generation ", i, " of run ", q, " has best point ", v.best_point, " with a cache, ", u.best_point, " without");
            check(u.invalid == v.invalid, "generation ", i, " of run ", q, " had ", v.invalid, " invalid chromosomes with a cache, ", u.invalid, " without");
            check(u.individuals.size() == v.individuals.size(), "other individuals");
            std::vector<std::pair<int, double>> iu, iv;
            for (auto& e : u.individuals) iu.push_back({e.times_chosen_for_crossover, e.fitness});
            for (auto& e : v.individuals) iv.push_back({e.times_chosen_for_crossover, e.fitness});
            std::sort(iu.begin(), iu.end());
            std::sort(iv.begin(), iv.end());
            check(iu == iv, "the individuals of generation ", i, " of run ", q, " have other fitness values with a cache");
            check(v.hits >= 0 && v.hits + (int)gy[i].size() == c.population, "generation ", i, " of run ", q, ": ", v.hits, " cache hits and ", gy[i].size(), " evaluations of ", c.population, " individuals");
            // what was evaluated belongs to the generation, as often at most
            std::vector<Point> px = points(gx[i]), py = points(gy[i]);
            check(std::includes(px.begin(), px.end(), py.begin(), py.end()), "generation ", i, " of run ", q, " evaluated ", py, " with a cache, ", px, " without");
            if (ample)
                for (auto& p : py)
                {
                    auto it = evaluated.find(p);
                    if (it != evaluated.end() && it->second != (int)i) fail("the point ", p, " was evaluated in generation ", i, " although it was in generation ", it->second);
                }
            for (auto& p : py) evaluated.insert({p, (int)i});
            // and everybody was evaluated at some time in this run
            for (auto& p : px) check(evaluated.count(p), "the point ", p, " of generation ", i, " of run ", q, " was never evaluated");
            if (s.noting()) { s.note() << "generation " << i << " evaluates " << show(py) << " of " << show(px) << " hits " << v.hits << "\n"; }
            spared += v.hits;
        }
        if (q) s.label("used again");
    }
    if (spared) { s.nontrivial(); s.label("cache used"); }
    s.label(ample ? "ample" : "tight");
}

// a run that fails half-way leaves nothing behind
static void after_failure(Src& s)
{
    Config c = gen_config(s, 12, 6);
    if (s.flip()) { do { c.d = gen(s, 1, 3); } while (leaf_count(c.d) > 3); }
    c.cache = 10;
    g_processors = 1;
    s.note("parameters", text(c.d));
    s.note("configuration", c.text());
    rc::begin(s, true);
    GeneticAlgorithm::shared_ptr g = create(c, c.make_mutator());
    for (int q = s.range(2, 4); q > 0; q--)
    {
        Function f = gen_function(s);
        IDiscreteParameters::shared_ptr p = make(c.d);
        Run r;
        r.log.reset(new Log());
        if (q > 1) r.log->fail_at = s.range(0, c.population * 3);
        optimize(*g, f, p.get(), r);
        if (!r.error.empty())
        {
            check(r.error_type == "objective", "failed: ", r.error);
            s.label("failed");
            s.nontrivial();
        }
        std::vector<std::vector<Eval>> gens = split(r);
        std::map<Point, double> known;
        double best = -1;
        for (size_t i = 0; i < gens.size(); i++)
        {
            for (auto& e : gens[i]) { known[e.p] = e.f; best = std::max(best, e.f); }
            check(r.reports[i].hits + (int)gens[i].size() == c.population, "generation ", i, ": ", r.reports[i].hits, " cache hits and ", gens[i].size(), " evaluations of ", c.population, " individuals");
            check(r.reports[i].best == best, "best fitness ", r.reports[i].best, " is reported instead of ", best, " in generation ", i);
        }
        if (r.error.empty()) check(known.count(r.result) && known[r.result] == best, "the result ", r.result, " was not evaluated by this run as its best");
    }
}

Property pbt::property()
{
    Property p = {"C23",
        {{"same", 5, same}, {"after_failure", 1, after_failure}},
        10000, 500000,
        "Up to four optimizations (of different functions) by one genetic algorithm with a cache, ample or tight, and by one without, from the same state of the "
        "random generator: reports, individuals, results are compared generation by generation, evaluations accounted for. Non-trivial: the cache was used, or a "
        "run failed before another.",
        {"No two chromosomes of a run have one hash value (64 bits)."}};
    p.batch = 100;
    return p;
}
