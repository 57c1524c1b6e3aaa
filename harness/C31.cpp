// C31: a genetic algorithm breeds in proportion to fitness and varies fairly.
#include "ga_util.h"
#include <k52/optimization/individual.h>
using namespace pbt;
using namespace ga;

// A sum of differences between choices in [0,1] and their odds given the past, with the
// given total variance: can it be that large? (Freedman's inequality, error 1e-14)
static bool plausible(double difference, double variance)
{
    const double L = 33;
    return std::fabs(difference) <= L / 3 + std::sqrt(L * L / 9 + 2 * L * variance) + 1e-6 * variance;
}

// any range of 2^k values: all chromosomes are valid
static Desc whole_range(Src& s, int bits)
{
    Desc d;
    d.kind = Desc::Int;
    d.imin = s.flip() ? 0 : s.range(-1000, 1000);
    d.imax = d.imin + (int)((1u << bits) - 1);
    d.ival = d.imin;
    return d;
}

static void selection(Src& s)
{
    Config c;
    c.d = whole_range(s, s.range(1, 16));
    if (s.chance(0.3)) { Desc k; k.kind = Desc::Composite; for (int i = s.range(1, 3); i > 0; i--) k.kids.push_back(whole_range(s, s.range(1, 8))); c.d = k; }
    c.population = 2 * s.size(1, s.flip() ? 10 : 150);
    c.generations = s.size(2, std::max(4, 2500 / c.population));
    c.elites = s.chance(0.5) ? 0 : s.range(0, c.population / 2 - 1);
    c.mutator = s.range(0, 1);
    c.p = s.chance(0.3) ? 1 : s.unit() * 0.5;
    c.seed = s.draw(0xffff);
    g_processors = 1;
    Function f = gen_function(s);
    s.note("parameters", text(c.d));
    s.note("configuration", c.text());
    s.note("function", std::string(f.name()));
    rc::begin(s, true);
    IDiscreteParameters::shared_ptr p = make(c.d);
    GeneticAlgorithm::shared_ptr g = create(c, c.make_mutator());
    Run r;
    optimize(*g, f, p.get(), r);
    check(r.error.empty(), "optimization failed: ", r.error);
    std::vector<std::vector<Eval>> gens = split(r);

    static const char* const names[] = {"the fitter half", "the fittest individual", "individuals of fitness 0", "individuals by their fitness", "the first half of the population", "the last individual of the population"};
    double difference[6] = {0}, variance[6] = {0}, total = 0;
    for (size_t n = 1; n < r.reports.size(); n++)
    {
        const std::vector<Eval>& v = gens[n - 1];
        const std::vector<IndividualStatistics>& st = r.reports[n].individuals;
        check(v.size() == (size_t)c.population && st.size() == v.size(), "generation ", n, " has ", v.size(), " individuals and ", st.size(), " statistics");
        double sum = 0, top = 0, choices = 0;
        for (auto& e : v) { sum += e.f; top = std::max(top, e.f); }
        if (!(sum > 0)) continue;
        for (auto& e : st) choices += e.times_chosen_for_crossover;
        total += choices;
        std::vector<double> sorted;
        for (auto& e : v) sorted.push_back(e.f);
        std::sort(sorted.rbegin(), sorted.rend());
        double median = sorted[sorted.size() / 2];
        // where an individual was, if its fitness tells
        std::map<double, std::pair<int, size_t>> place;
        for (size_t i = 0; i < v.size(); i++) { auto& q = place[v[i].f]; q.first++; q.second = i; }
        for (int k = 0; k < 6; k++)
        {
            auto weight = [&](double x) -> double
            {
                switch (k)
                {
                case 0: return x > median;
                case 1: return x == top;
                case 2: return x == 0;
                case 3: return top > 0 ? x / top : 0;
                default:
                {
                    auto it = place.find(x);
                    if (it == place.end() || it->second.first != 1) return 0;
                    return k == 4 ? it->second.second < v.size() / 2 : it->second.second == v.size() - 1;
                }
                }
            };
            double mean = 0, square = 0;
            for (auto& e : v) { double w = weight(e.f), q = e.f / sum; mean += w * q; square += w * w * q; }
            for (auto& e : st) difference[k] += weight(e.fitness) * e.times_chosen_for_crossover;
            difference[k] -= choices * mean;
            variance[k] += choices * std::max(0.0, square - mean * mean);
        }
    }
    for (int k = 0; k < 6; k++)
        check(plausible(difference[k], variance[k]), "of ", total, " choices, ", names[k], " got ", difference[k], " more than in proportion to fitness, with a standard deviation of ", std::sqrt(variance[k]));
    if (total >= 100 && f.kind && f.scale > 0) s.nontrivial();
    s.label(f.name());
    if (total >= 1000) s.label("1000 choices or more");
}

// the children of two opposite parents show where they were cut
static void crossover(Src& s)
{
    int bits = s.size(1, 24);
    Desc d = whole_range(s, bits);
    s.note("genes", bits);
    rc::begin(s, true);
    IDiscreteParameters::shared_ptr p = make(d);
    // a parent and its complement
    ChromosomeType a(bits), b(bits);
    for (int i = 0; i < bits; i++) { a[i] = s.flip(); b[i] = !a[i]; }
    int n = s.size(50, 2000);
    std::vector<double> cut(bits, 0);
    IDiscreteParameters::shared_ptr q = make(d);
    p->SetFromChromosome(a.begin(), a.end());
    q->SetFromChromosome(b.begin(), b.end());
    Individual first(p.get()), second(q.get());
    for (int k = 0; k < n; k++)
    {
        Individual x(first), y(second);
        check(x.Crossover(&y), "the children of valid chromosomes of a whole range are invalid");
        const ChromosomeType& u = x.GetChromosome();
        int at = 0;
        while (at < bits && u[at] == a[at]) at++;
        check(at < bits, "crossover exchanged nothing");
        for (int i = at; i < bits; i++) check(u[i] == b[i], "gene ", i, " behind the crossover point ", at, " was not exchanged");
        cut[at]++;
    }
    for (int i = 0; i < bits; i++)
        check(plausible(cut[i] - (double)n / bits, n * (1.0 / bits) * (1 - 1.0 / bits)), "of ", n, " crossovers of ", bits, " genes ", cut[i], " happened at gene ", i);
    if (bits > 1) s.nontrivial();
}

struct First : public DiscreteObjectiveFunction
{
    explicit First(std::map<Point, double>* seen) : seen(seen) {}
    virtual double operator()(const IDiscreteParameters* const p) const { (*seen)[values(p)]++; return 1; }
    virtual First* Clone() const { return new First(seen); }
    std::map<Point, double>* seen;
};

// every valid chromosome is as likely as the others
static void initialisation(Src& s)
{
    Desc d;
    if (s.flip())
    {
        d.kind = Desc::Int;
        d.imin = s.range(-50, 50);
        d.imax = d.imin + s.size(1, 30);
        d.ival = d.imin;
    }
    else
    {
        d.kind = Desc::Composite;
        for (int i = s.range(1, 3); i > 0; i--)
        {
            Desc k;
            k.kind = Desc::Int;
            k.imin = s.range(-50, 50); k.imax = k.imin + s.size(1, 4); k.ival = k.imin;
            d.kids.push_back(k);
        }
    }
    s.note("parameters", text(d));
    rc::begin(s, true);
    IDiscreteParameters::shared_ptr p = make(d);
    double values_number = 1;
    if (d.kind == Desc::Int) values_number = (double)d.imax - d.imin + 1;
    else for (auto& k : d.kids) values_number *= (double)k.imax - k.imin + 1;
    int n = s.size(100, 3000);
    std::map<Point, double> seen;
    Individual x(p.get());
    if (s.chance(0.4))
    {
        // first generations
        int population = 2 * s.range(1, 5);
        if (p->GetChromosomeSize() == 0) population = 2;
        n = std::max(n / population, 1) * population;
        s.note("individuals in a population", population);
        s.label("first generations");
        g_processors = 1;
        GeneticAlgorithm::shared_ptr g = GeneticAlgorithm::Create(population, 0, 1, boost::shared_ptr<IMutator>(new LinearMutator(0, 0)));
        First f(&seen);
        for (int i = 0; i < n; i += population)
        {
            // runs go on from where the last one ended, or from the same values, whatever these are
            if (s.chance(0.1)) p = make(d);
            g->Optimize(f, p.get(), true);
        }
        double all = 0;
        for (auto& e : seen) all += e.second;
        check(all == n, all, " evaluations of ", n, " individuals");
    }
    else for (int i = 0; i < n; i++)
    {
        bool again = s.chance(0.5) && i;
        if (again) { x.SetRandomChromosome(); seen[values(x.GetParametersAccordingToChromosome())]++; continue; }
        Individual y(p.get());
        y.SetRandomChromosome();
        seen[values(y.GetParametersAccordingToChromosome())]++;
    }
    check(seen.size() <= values_number, seen.size(), " values of ", values_number);
    double q = 1 / values_number;
    for (auto& e : seen) check(plausible(e.second - n * q, n * q * (1 - q)), "of ", n, " random individuals with ", values_number, " possible values ", e.second, " have the values ", e.first);
    if (seen.size() < values_number) check(plausible(n * q, n * q * (1 - q)), n, " random individuals with ", values_number, " possible values never have one of them");
    s.nontrivial();
}

// every individual is mutated, elites too
struct Counting : public IMutator
{
    size_t count = 0;
    virtual void ApplyNewMutationContext(const MutationContext&) {}
    virtual void MutateChromosome(ChromosomeType* c) { count++; for (size_t i = 0; i < c->size(); i++) (*c)[i] = !(*c)[i]; }
};
static void mutation(Src& s)
{
    Config c;
    c.d = whole_range(s, s.range(1, 20));
    c.population = 2 * s.size(1, 15);
    c.generations = s.size(2, 10);
    c.elites = c.population / 2;
    g_processors = 1;
    Function f = gen_function(s);
    s.note("configuration", c.text());
    rc::begin(s, true);
    boost::shared_ptr<Counting> m(new Counting());
    GeneticAlgorithm::shared_ptr g = create(c, m);
    Run r;
    IDiscreteParameters::shared_ptr p = make(c.d);
    optimize(*g, f, p.get(), r);
    check(r.error.empty(), "optimization failed: ", r.error);
    std::vector<std::vector<Eval>> gens = split(r);
    check(gens.size() == (size_t)c.generations, gens.size(), " generations instead of ", c.generations);
    // all are elites, and each of them is inverted
    for (size_t n = 1; n < gens.size(); n++)
    {
        std::vector<Point> was = points(gens[n - 1]), is = points(gens[n]);
        for (auto& e : was) e[0] = (double)c.d.imin + (double)c.d.imax - e[0];
        std::sort(was.begin(), was.end());
        check(was == is, "generation ", n, " consists of ", is, " instead of the mutated individuals of the generation before, ", was);
    }
    check(m->count == (size_t)c.population * c.generations || m->count == (size_t)c.population * (c.generations - 1), m->count, " mutations in ", c.generations, " generations of ", c.population);
    s.nontrivial();
}

static std::vector<bool> genes_of(const Desc& d, const Point& p)
{
    std::vector<bool> r;
    for (size_t i = 0; i < p.size(); i++)
    {
        const Desc& k = d.kind == Desc::Composite ? d.kids[i] : d;
        for (unsigned span = (unsigned)(k.imax - k.imin), v = (unsigned)((long long)p[i] - k.imin); span; span >>= 1, v >>= 1) r.push_back(v & 1);
    }
    return r;
}

// the first generation is random, and without mutation the genes of a generation are those of
// the elites and of the individuals chosen for parents, each as often as it was chosen
static void genes(Src& s)
{
    Config c;
    c.d = whole_range(s, s.range(1, 24));
    if (s.chance(0.4)) { Desc k; k.kind = Desc::Composite; for (int i = s.range(1, 6); i > 0; i--) k.kids.push_back(whole_range(s, s.range(1, 10))); c.d = k; }
    c.population = 2 * s.size(1, s.flip() ? 10 : 200);
    c.generations = s.size(2, 8);
    c.elites = s.chance(0.5) ? 0 : s.range(0, c.population / 2);
    g_processors = s.chance(0.2) ? s.range(2, 4) : 1;
    Function f = gen_function(s);
    if (s.chance(0.7)) f.kind = s.chance(0.8) ? 2 : 5;
    if (f.scale == 0) f.scale = 1;
    s.note("parameters", text(c.d));
    s.note("configuration", c.text());
    s.note("function", std::string(f.name()));
    rc::begin(s, true);
    IDiscreteParameters::shared_ptr p = make(c.d);
    GeneticAlgorithm::shared_ptr g = create(c, c.make_mutator());
    for (int k = s.chance(0.2) ? 2 : 1; k > 0; k--)
    {
        Run r;
        optimize(*g, f, p.get(), r);
        check(r.error.empty(), "optimization failed: ", r.error);
        std::vector<std::vector<Eval>> gens = split(r);
        check(gens.size() == (size_t)c.generations, gens.size(), " generations instead of ", c.generations);
        size_t bits = genes_of(c.d, values(p.get())).size();
        for (auto& e : gens) check(e.size() == (size_t)c.population, "a generation of ", e.size(), " individuals instead of ", c.population);

        std::vector<double> ones(bits, 0);
        double all = 0, same = 0, n = c.population;
        for (size_t i = 0; i < gens[0].size(); i++)
        {
            std::vector<bool> b = genes_of(c.d, gens[0][i].p), before = genes_of(c.d, gens[0][i ? i - 1 : 0].p);
            for (size_t j = 0; j < bits; j++) { ones[j] += b[j]; all += b[j]; if (i) same += b[j] == before[j]; }
        }
        for (size_t j = 0; j < bits; j++) check(plausible(ones[j] - n / 2, n / 4), "in the first generation ", ones[j], " of ", n, " individuals have gene ", j);
        check(plausible(all - n * bits / 2, n * bits / 4), "the first generation has ", all, " of ", n * bits, " genes set");
        check(plausible(same - (n - 1) * bits / 2, (n - 1) * bits / 4), "individuals of the first generation share ", same, " of ", (n - 1) * bits, " genes with the one before");

        for (size_t n = 1; n < gens.size(); n++)
        {
            std::vector<Eval> was = gens[n - 1];
            std::sort(was.begin(), was.end(), [](const Eval& a, const Eval& b) { return a.f > b.f; });
            std::map<double, Point> who;
            bool unique = true;
            for (auto& e : was) unique = unique && who.insert(std::make_pair(e.f, e.p)).first->second == e.p;
            if (!unique) continue;
            std::vector<double> expect(bits, 0), got(bits, 0);
            long choices = 0, elites = std::min(2 * c.elites, c.population);
            for (auto& e : r.reports[n].individuals)
            {
                auto it = who.find(e.fitness);
                check(it != who.end(), "a parent of fitness ", e.fitness, " is reported that was not in the generation before");
                std::vector<bool> b = genes_of(c.d, it->second);
                for (size_t j = 0; j < bits; j++) expect[j] += e.times_chosen_for_crossover * (double)b[j];
                choices += e.times_chosen_for_crossover;
            }
            check(choices == c.population - elites, choices, " choices of parents for ", c.population - elites, " children");
            for (long i = 0; i < elites; i++) { std::vector<bool> b = genes_of(c.d, was[(size_t)i].p); for (size_t j = 0; j < bits; j++) expect[j] += b[j]; }
            for (auto& e : gens[n]) { std::vector<bool> b = genes_of(c.d, e.p); for (size_t j = 0; j < bits; j++) got[j] += b[j]; }
            check(got == expect, "in generation ", n, " the genes are set in ", got, " individuals, but the elites and the chosen parents had them ", expect, " times");
            s.label("followed the genes");
            if (who.size() > 2 && choices > 0) s.nontrivial();
        }
    }
}

// two parents are chosen independently, and crossed: all individuals are equal or opposite
static void pairs(Src& s)
{
    int bits = s.range(2, 20);
    Config c;
    c.d = whole_range(s, bits);
    c.population = 2 * s.size(10, 400);
    c.generations = 2;
    g_processors = 1;
    Function f;
    f.kind = s.flip() ? 0 : 1;
    f.seed = s.draw(0xffff);
    double span = (double)c.d.imax - c.d.imin, a = s.chance(0.5) ? std::floor(span * (0.3 + 0.4 * s.unit())) : (double)s.range64(0, (long long)span);
    Point first(1, c.d.imin + a), second(1, c.d.imin + (span - a));
    int n = s.chance(0.6) ? c.population / 2 : s.range(1, c.population - 1);
    s.note("parameters", text(c.d)); s.note("configuration", c.text()); s.note("function", std::string(f.name()));
    s.note("first", first); s.note("second", second); s.note("of the first", n);
    std::vector<Point> all;
    for (int i = 0; i < c.population; i++) all.push_back(i < n ? first : second);
    if (s.flip()) { uint64_t st = s.draw(0xffff); for (size_t i = all.size(); i > 1; i--) { st = mix(st); std::swap(all[i - 1], all[st % i]); } }
    std::vector<IDiscreteParameters::shared_ptr> initial;
    for (auto& e : all) { Desc d = c.d; d.ival = (int)e[0]; initial.push_back(make(d)); }
    rc::begin(s, true);
    IDiscreteParameters::shared_ptr p = make(c.d);
    GeneticAlgorithm::shared_ptr g = create(c, c.make_mutator());
    g->SetInitialParameters(initial);
    Run r;
    optimize(*g, f, p.get(), r);
    check(r.error.empty(), "optimization failed: ", r.error);
    std::vector<std::vector<Eval>> gens = split(r);
    check(gens.size() == 2 && gens[1].size() == (size_t)c.population, "not two generations of ", c.population, " individuals");
    double fa = 0, sum = 0;
    for (auto& e : gens[0]) { sum += e.f; if (e.p == first) fa += e.f; }
    double q = sum > 0 ? fa / sum : 1, mixed = 0;
    std::vector<bool> ga = genes_of(c.d, first);
    for (auto& e : gens[1])
    {
        std::vector<bool> b = genes_of(c.d, e.p);
        int changes = 0;
        for (int j = 1; j < bits; j++) changes += (b[j] == ga[j]) != (b[j - 1] == ga[j - 1]);
        check(changes <= 1, "a child ", e.p, " of ", first, " and ", second, " was cut at ", changes, " places");
        mixed += changes;
    }
    double crosses = c.population / 2, odds = 2 * q * (1 - q) * (bits - 1) / bits;
    check(plausible(mixed / 2 - crosses * odds, crosses * odds * (1 - odds)), "of ", crosses, " pairs of parents ", mixed / 2, " had children of both kinds, with odds of ", odds);
    if (odds > 0.01) s.nontrivial();
    if (crosses * odds > 20) s.label("many mixed pairs");
}

Property pbt::property()
{
    Property p = {"C31",
        {{"selection", 4, selection}, {"crossover", 2, crossover}, {"initialisation", 2, initialisation}, {"mutation", 1, mutation}, {"genes", 3, genes}, {"pairs", 2, pairs}},
        2500, 100000,
        "Runs of the genetic algorithm on parameters all of whose chromosomes are valid, 2 to 300 individuals and up to a few thousand choices of parents: the "
        "choices reported for the fitter half, the fittest, those of fitness 0, the first half of the population and others are compared to their odds given "
        "the generation before; crossovers of a parent with its complement (every point equally often), random individuals and those of first generations (every valid value equally often), "
        "generations of elites only under a mutator that inverts every gene; the genes of the first generation and, without mutation, of every other, compared with those "
        "of its elites and chosen parents; the children of individuals that are equal or opposite. Non-trivial: at least 100 choices with an objective that is not constant, more than one gene, or any history of the other facets.",
        {"Odds are judged by Freedman's inequality with an error of 1e-14 for each judgement, over a generated but well mixed uniform stream in place of rand()."}};
    p.batch = 20;
    return p;
}
