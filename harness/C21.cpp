// C21: a genetic algorithm returns the best point it evaluated, and reports truthfully.
#include "ga_util.h"
using namespace pbt;
using namespace ga;

// a generated valid point of the description
static IDiscreteParameters::shared_ptr gen_point(Src& s, const Desc& d)
{
    IDiscreteParameters::shared_ptr p = make(d);
    for (int t = 0; t < 6; t++)
    {
        ChromosomeType c(p->GetChromosomeSize());
        for (size_t i = 0; i < c.size(); i++) c[i] = t < 5 ? s.flip() : false;
        p->SetFromChromosome(c.begin(), c.end());
        if (in_range(p.get())) return p;
    }
    return p;
}
// what is evaluated: the values the chromosome can express
static Point expressible(const Desc& d, const IDiscreteParameters* p)
{
    ChromosomeType c = chromosome(p);
    IDiscreteParameters::shared_ptr f = make(d);
    f->SetFromChromosome(c.begin(), c.end());
    return values(f.get());
}

static void verify(Src& s, const Config& c, const Run& r, bool reported, const std::vector<Point>* initial, const Point& before, Mutator* m, size_t contexts_before)
{
    const std::vector<Eval>& all = r.log->evals;
    check(r.error.empty(), "optimization failed: ", r.error);
    check(r.log->all_valid, "an invalid point was evaluated: ", r.log->invalid);
    check(!all.empty() && all.size() % c.population == 0, all.size(), " evaluations with a population of ", c.population);
    // the result
    double best = -1;
    for (auto& e : all) best = std::max(best, e.f);
    bool found = false;
    for (auto& e : all) found = found || (e.f == best && e.p == r.result);
    check(found, "the result ", r.result, " is not the best of the points evaluated, of fitness ", best);
    // the length of the run
    size_t want = c.generations;
    double so_far = -1;
    for (size_t n = 0; n < (size_t)c.generations && (n + 1) * c.population <= all.size(); n++)
    {
        for (int i = 0; i < c.population; i++) so_far = std::max(so_far, all[n * c.population + i].f);
        if (so_far >= c.stop) { want = n + 1; break; }
    }
    check(all.size() == want * c.population, all.size() / c.population, " generations were evaluated instead of ", want);
    s.label(want < (size_t)c.generations ? "stopped by fitness" : "all generations");
    if (m)
    {
        size_t told = m->contexts.size() - contexts_before;
        check(told == want || told == want - 1, "the mutator was told of ", told, " generations of ", want);
        for (size_t n = 0; n < told; n++)
            check(m->contexts[contexts_before + n].current_generation == (int)n && m->contexts[contexts_before + n].max_number_of_generations == c.generations,
                "the mutator was told generation ", m->contexts[contexts_before + n].current_generation, " of ", m->contexts[contexts_before + n].max_number_of_generations, " instead of ", n, " of ", c.generations);
    }
    std::vector<std::vector<Eval>> g;
    for (size_t n = 0; n < want; n++) g.push_back(std::vector<Eval>(all.begin() + n * c.population, all.begin() + (n + 1) * c.population));
    if (initial)
    {
        std::vector<Point> a = *initial, b = points(g[0]);
        std::sort(a.begin(), a.end());
        check(a == b, "the first generation ", b, " does not consist of the initial parameters ", a);
    }
    // the reports
    if (reported)
    {
        check(r.reports.size() == want, r.reports.size(), " generations were reported instead of ", want);
        double best_so_far = -1;
        for (size_t n = 0; n < want; n++)
        {
            const Reported& e = r.reports[n];
            check(e.number == n, "generation ", n, " is reported as number ", e.number);
            check(e.evals == (n + 1) * c.population, "generation ", n, " is reported after ", e.evals, " evaluations instead of ", (n + 1) * c.population);
            double sum = 0, worst = g[n][0].f;
            for (auto& x : g[n]) { sum += x.f; best_so_far = std::max(best_so_far, x.f); worst = std::min(worst, x.f); }
            double average = sum / c.population;
            check(std::fabs(e.average - average) <= 1e-12 * (std::fabs(average) + worst), "the average fitness of generation ", n, " is reported as ", e.average, " instead of ", average);
            check(e.best == best_so_far, "the best fitness so far is reported as ", e.best, " in generation ", n, " instead of ", best_so_far);
            bool known = false;
            for (size_t i = 0; i < (n + 1) * c.population && !known; i++) known = all[i].f == best_so_far && all[i].p == e.best_point;
            check(known, "the best point so far is reported as ", e.best_point, " in generation ", n, ", which is no point of fitness ", best_so_far);
            check(e.hits == 0, e.hits, " cache hits without a cache");
            check(e.invalid >= 0, e.invalid, " invalid chromosomes");
            if (always_valid(c.d) || (initial && n == 0)) check(e.invalid == 0, e.invalid, " invalid chromosomes are reported in generation ", n, ", but there can be none");
            check(e.individuals.size() == (size_t)c.population, e.individuals.size(), " individuals are reported instead of ", c.population);
            if (n > 0)
            {
                std::vector<double> a, b;
                long chosen = 0;
                for (size_t i = 0; i < e.individuals.size(); i++)
                {
                    a.push_back(e.individuals[i].fitness);
                    b.push_back(g[n - 1][i].f);
                    chosen += e.individuals[i].times_chosen_for_crossover;
                    check(e.individuals[i].times_chosen_for_crossover >= 0, "a negative number of choices");
                    check(!i || e.individuals[i].times_chosen_for_crossover <= e.individuals[i - 1].times_chosen_for_crossover, "the ", i + 1, "th individual in the report of generation ", n,
                        " was chosen ", e.individuals[i].times_chosen_for_crossover, " times, more than the one before it, but the most chosen are to be the first");
                }
                std::sort(a.begin(), a.end());
                std::sort(b.begin(), b.end());
                check(a == b, "the individuals reported in generation ", n, " have fitness ", a, ", but those who were its parents had ", b);
                long pairs = c.population / 2 - std::min(std::max(c.elites, 0), c.population / 2);
                check(chosen >= 2 * pairs && chosen % 2 == 0, chosen, " choices are reported for ", pairs, " pairs of children");
                long draws = e.mutations - r.reports[n - 1].mutations;
                check(draws >= c.population, draws, " mutations of ", c.population, " individuals");
                long failed = chosen / 2 - pairs + draws - c.population;
                check(e.invalid == failed, e.invalid, " invalid chromosomes are reported in generation ", n, ", which took ", chosen / 2, " crossovers for ", pairs, " pairs and ", draws, " mutations for ", c.population, " individuals");
                if (failed && n > 1) s.label("invalid chromosomes");
                if (always_valid(c.d)) check(chosen == 2 * pairs, chosen, " choices are reported for ", pairs, " pairs of children, none of which can be invalid");
            }
        }
        if (!always_valid(c.d)) s.label("constraints");
    }
    // from one generation to the next without mutation
    if (c.mutator == 0)
        for (size_t n = 0; n + 1 < want; n++)
        {
            std::vector<Eval> v = g[n];
            std::stable_sort(v.begin(), v.end(), [](const Eval& a, const Eval& b) { return a.f > b.f; });
            size_t k = 2 * (size_t)std::min(std::max(c.elites, 0), c.population / 2);
            std::vector<double> next;
            for (auto& e : g[n + 1]) next.push_back(e.f);
            std::sort(next.rbegin(), next.rend());
            for (size_t i = 0; i < k; i++)
                check(next[i] >= v[i].f, "generation ", n + 1, " has no ", i + 1, " individuals of fitness ", v[i].f, " or more, although ", c.elites, " pairs of elites should survive");
            // those above the last elite's fitness are elites for sure
            std::map<Point, int> must;
            if (k) for (auto& e : v) if (e.f > v[k - 1].f) must[e.p]++;
            if (k == v.size()) { must.clear(); for (auto& e : v) must[e.p]++; }
            for (auto& e : g[n + 1]) { auto it = must.find(e.p); if (it != must.end()) it->second--; }
            for (auto& e : must) check(e.second <= 0, "the elite ", e.first, " of generation ", n, " is missing in the next");
            if (k) s.label("elites");
        }
    (void)before;
}

static void runs(Src& s)
{
    Config c = gen_config(s);
    if (s.chance(0.05)) c.elites = -s.range(1, 3);
    g_processors = s.chance(0.7) ? 1 : s.range(2, 4);
    Function f = gen_function(s);
    if (s.chance(0.4)) c.stop = f.scale * s.real(0, 4);
    s.note("parameters", text(c.d));
    s.note("configuration", c.text());
    s.note("processors", (int)g_processors);
    rc::begin(s, true);
    rc::mode = s.chance(0.2) ? 1 : 0;
    IMutator::shared_ptr m = c.make_mutator();
    Mutator* own = c.mutator < 2 ? static_cast<Mutator*>(m.get()) : nullptr;
    GeneticAlgorithm::shared_ptr g = create(c, Config::counted(m));
    int n = s.chance(0.6) ? 1 : s.range(2, 4);
    std::vector<Point> initial;
    bool have_initial = false;
    for (int q = 0; q < n; q++)
    {
        if (q) f = gen_function(s);
        s.note("function", std::string(f.name()));
        IDiscreteParameters::shared_ptr p = s.flip() ? make(c.d) : gen_point(s, c.d);
        Point before = values(p.get());
        // composite parameters cannot be compared, and so not be initial ones
        if (c.d.kind != Desc::Composite && s.chance(0.3))
        {
            std::vector<IDiscreteParameters::shared_ptr> v;
            initial.clear();
            for (int i = 0; i < c.population; i++)
            {
                v.push_back(s.chance(0.2) ? make(c.d) : gen_point(s, c.d));
                initial.push_back(expressible(c.d, v.back().get()));
            }
            g->SetInitialParameters(v);
            have_initial = true;
            if (s.flip()) for (auto& e : v) { ChromosomeType z(e->GetChromosomeSize()); e->SetFromChromosome(z.begin(), z.end()); }  // its copies stay
            s.label("initial parameters");
        }
        Run r;
        bool report = s.chance(0.8);
        size_t told = own ? own->contexts.size() : 0;
        if (s.chance(0.15))
        {
            // a run that fails, which must not matter to the following ones
            r.log.reset(new Log());
            long at = s.range(0, c.population * c.generations - 1);
            bool negative = s.flip();
            r.log->no_number = s.flip();
            (negative ? r.log->negative_at : r.log->fail_at) = at;
            optimize(*g, f, p.get(), r, report);
            bool reached = (long)r.log->evals.size() > at;
            if (!reached) continue;
            if (s.noting()) s.note() << "evaluation " << at << (negative ? r.log->no_number ? " is no number" : " is negative" : " throws") << ": " << r.error_type << " " << r.error << "\n";
            check(r.error_type == (negative ? "logic_error" : "objective"), negative ? "a fitness that is negative or no number" : "an exception of the objective", " ended the run with ", r.error_type.empty() ? std::string("a result") : r.error_type);
            check(values(p.get()) == before, "a run that failed changed the parameters");
            s.label("failing run");
            continue;
        }
        optimize(*g, f, p.get(), r, report);
        verify(s, c, r, report, have_initial ? &initial : nullptr, before, own, told);
        check(in_range(p.get()) && p->CheckConstraints(), "the result is invalid: ", r.result);
        if (r.log->evals.size() > (size_t)c.population && c.population > 2 && f.kind) s.nontrivial();
        s.label(f.name());
        if (q) s.label("used again");
    }
}

static void rejected(Src& s)
{
    s.nontrivial();
    g_processors = 1;
    Config c = gen_config(s, 8, 4);
    rc::begin(s, true);
    s.note("configuration", c.text());
    Function f = gen_function(s);
    int kind = s.range(0, 7);
    s.note("kind", kind);
    if (kind >= 6 && c.d.kind == Desc::Composite) throw Discard();
    if (kind == 7 && leaf_count(c.d) == 0) kind = 6;
    if (kind <= 3)
    {
        Config b = c;
        IMutator::shared_ptr m = b.make_mutator();
        switch (kind)
        {
        case 0: b.population = 2 * s.range(-5, 5) + 1; break;
        case 1: b.population = -2 * s.range(0, 5); break;
        case 2: b.generations = -s.range(0, 5); break;
        default: m.reset();
        }
        check(GeneticAlgorithm::Create(b.population, b.elites, b.generations, m, b.cache, b.stop, b.file) == nullptr, "an invalid configuration was accepted");
        return;
    }
    GeneticAlgorithm::shared_ptr g = create(c, c.make_mutator());
    IDiscreteParameters::shared_ptr p = make(c.d);
    Point before = values(p.get());
    Run r;
    r.log.reset(new Log());
    if (kind == 4)
    {
        Objective o(f, r.log);
        must_throw<std::invalid_argument>("minimizing", [&] { g->Optimize(o, p.get(), false); });
    }
    else
    {
        std::vector<IDiscreteParameters::shared_ptr> v;
        for (int i = 0; i < c.population; i++) v.push_back(gen_point(s, c.d));
        if (kind == 5)
        {
            // not enough of them, or other ones
            size_t n = s.range(0, c.population - 1);
            v.resize(n);
            s.note("given", n);
            must_throw<std::invalid_argument>("fewer initial parameters than individuals", [&] { g->SetInitialParameters(v); Objective o(f, r.log); g->Optimize(o, p.get(), true); });
        }
        else if (kind == 6)
        {
            // parameters of another type
            Desc d;
            d.kind = c.d.kind == Desc::Int ? Desc::Double : Desc::Int;
            if (d.kind == Desc::Int) { d.imin = 0; d.imax = 15; d.ival = s.range(0, 15); }
            else { d.dmin = 0; d.dmax = 10; d.dprec = 1; d.dval = s.range(0, 10); }
            v[s.index(v.size())] = make(d);
            g->SetInitialParameters(v);
            Objective o(f, r.log);
            must_throw<std::invalid_argument>("initial parameters of another type", [&] { g->Optimize(o, p.get(), true); });
        }
        else
        {
            // parameters of the same type with another range
            Desc d;
            std::function<bool(Desc&)> shift = [&](Desc& e) -> bool
            {
                switch (e.kind)
                {
                case Desc::Int: { if (e.imin <= -2147483647) return false; e.imin--; return true; }
                case Desc::Composite: { for (auto& k : e.kids) if (shift(k)) { if (e.sample) for (auto& x : e.kids) x = k; return true; } return false; }
                case Desc::Array: if (e.vals.empty()) return false; // fall through
                default: { double w = e.dmax - e.dmin; e.dmax += w; return true; }
                }
            };
            d = c.d;
            if (!shift(d)) throw Discard();
            v[s.index(v.size())] = make(d);
            g->SetInitialParameters(v);
            Objective o(f, r.log);
            must_throw<std::invalid_argument>("initial parameters with another range", [&] { g->Optimize(o, p.get(), true); });
        }
    }
    check(r.log->evals.empty(), "evaluated ", r.log->evals.size(), " points before the call was rejected");
    check(values(p.get()) == before, "a rejected call changed the parameters");
}

Property pbt::property()
{
    Property p = {"C21",
        {{"runs", 9, runs}, {"rejected", 1, rejected}},
        12000, 600000,
        "Runs of the genetic algorithm on generated parameters, objectives (constant, linear, random, needles, steps, rough; scales 1e-12 to 1e12), population "
        "sizes, elites, generations, mutators (none, plain, linear, flip bit), stop values, initial parameters and 1 to 4 processors, up to 4 runs of one "
        "object, some failing at a chosen evaluation; every evaluation and every report is recorded and the whole history is recomputed from the evaluations. "
        "Non-trivial: more than two individuals in more than one generation and an objective that is not constant, or a call to be rejected.",
        {"The random generator is uniform or favours extremes (a constant one would draw invalid chromosomes for ever).",
         "Individual statistics are those of the parents of the reported generation, as their choices are known only then."}};
    p.batch = 100;
    return p;
}
