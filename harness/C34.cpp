// C34: the number of processors changes how long a result takes, never the result.
#include "ga_util.h"
#include "opt_config.h"
using namespace pbt;

namespace
{
// Counts and sums up what was evaluated without ordering the threads: no lock may hide a race.
struct Tally
{
    std::atomic<long> count{0};
    std::atomic<uint64_t> sum{0};
    void add(const std::vector<double>& p)
    {
        uint64_t h = 1;
        for (double e : p) { uint64_t b; memcpy(&b, &e, 8); h = ga::mix(h ^ b); }
        count.fetch_add(1, std::memory_order_relaxed);
        sum.fetch_add(ga::mix(h), std::memory_order_relaxed);
    }
};

struct Seen
{
    long count = 0;
    uint64_t sum = 0;
    bool operator==(const Seen& o) const { return count == o.count && sum == o.sum; }
};
Seen seen(const Tally& t) { Seen s; s.count = t.count.load(std::memory_order_relaxed); s.sum = t.sum.load(std::memory_order_relaxed); return s; }

void dawdle(uint64_t h, int amount)
{
    if (amount <= 0) return;
    volatile int x = 0;
    for (int i = (int)(h % (unsigned)amount) * 20; i > 0; i--) x = x + i;
}

struct PointError : public std::runtime_error { PointError() : std::runtime_error("point") {} };

// ---- genetic algorithm: one const objective for all
class Discrete : public ga::DiscreteObjectiveFunction
{
public:
    Discrete(ga::Function f, Tally& t, double odds, int slow) : f_(f), t_(t), odds_(odds), slow_(slow) {}
    virtual double operator()(const ga::IDiscreteParameters* const p) const
    {
        std::vector<ga::Leaf> l;
        ga::leaves(p, l);
        std::vector<double> v;
        for (auto& e : l) v.push_back(e.v);
        double u = opt::hash01(v, f_.seed + 77);
        dawdle((uint64_t)(u * 1e9), slow_);
        t_.add(v);
        if (u < odds_) throw PointError();
        return f_(l);
    }
    virtual Discrete* Clone() const { return new Discrete(f_, t_, odds_, slow_); }
private:
    ga::Function f_;
    Tally& t_;
    double odds_;
    int slow_;
};

struct Report
{
    double average, best;
    std::vector<double> point;
    size_t number;
    int hits, invalid;
    std::vector<std::pair<int, double>> individuals;
    Seen evals;
    bool operator==(const Report& o) const
    {
        return average == o.average && best == o.best && point == o.point && number == o.number && hits == o.hits && invalid == o.invalid
            && individuals == o.individuals && evals == o.evals;
    }
    std::string text() const
    {
        std::ostringstream s;
        s << "generation " << number << ": average "; put(s, average); s << ", best "; put(s, best); s << " at "; put(s, point);
        s << ", " << hits << " hits, " << invalid << " invalid, " << evals.count << " evaluations";
        return s.str();
    }
};
struct Outcome
{
    std::vector<Report> reports;
    std::vector<double> result;
    std::string error;
    Seen evals;
};
Tally* g_tally = nullptr;
Outcome* g_outcome = nullptr;
void on_report(ga::GenerationStatistics st)
{
    ga::Reported r = ga::read_report(st);
    Report o;
    o.average = r.average; o.best = r.best; o.point = r.best_point; o.number = r.number; o.hits = r.hits; o.invalid = r.invalid;
    for (auto& i : r.individuals) o.individuals.push_back({i.times_chosen_for_crossover, i.fitness});
    o.evals = seen(*g_tally);
    g_outcome->reports.push_back(o);
}

struct Call { ga::Function f; double odds = 0; int slow = 0; };

std::vector<Outcome> breed(const ga::Config& c, const std::vector<Call>& calls, int processors, const rc::Point& from)
{
    from.restore();
    g_processors = processors;
    std::vector<Outcome> r;
    ga::GeneticAlgorithm::shared_ptr g = ga::create(c, c.make_mutator());
    for (auto& call : calls)
    {
        Tally t;
        Outcome o;
        g_tally = &t;
        g_outcome = &o;
        ga::IDiscreteParameters::shared_ptr p = ga::make(c.d);
        g->OnNextGenerationReadyConnect(on_report);
        try { g->Optimize(Discrete(call.f, t, call.odds, call.slow), p.get(), true); }
        catch (const std::exception& e) { o.error = e.what(); }
        o.result = ga::values(p.get());
        o.evals = seen(t);
        r.push_back(o);
    }
    return r;
}

void compare(const std::vector<Outcome>& a, const std::vector<Outcome>& b, int n)
{
    for (size_t q = 0; q < a.size(); q++)
    {
        const Outcome &x = a[q], &y = b[q];
        check(x.error == y.error, "run ", q, " with ", n, " processors ends with '", y.error, "', with one with '", x.error, "'");
        for (size_t i = 0; i < std::min(x.reports.size(), y.reports.size()); i++)
            check(x.reports[i] == y.reports[i], "run ", q, " with ", n, " processors reports ", y.reports[i].text(), ", with one ", x.reports[i].text());
        check(x.reports.size() == y.reports.size(), "run ", q, " with ", n, " processors has ", y.reports.size(), " generations, with one ", x.reports.size());
        check(x.result == y.result, "run ", q, " with ", n, " processors returns ", y.result, ", with one ", x.result);
        if (x.error.empty()) check(x.evals == y.evals, "run ", q, " with ", n, " processors evaluates ", y.evals.count, " points, with one ", x.evals.count, " or others");
    }
}

// ---- continuous: every clone has room of its own to work in
class Continuous : public opt::ContinuousObjectiveFunction
{
public:
    Continuous(const opt::Function& f, Tally& t, double odds, int slow, long most) : f_(f), t_(t), odds_(odds), slow_(slow), most_(most) {}
    using ContinuousObjectiveFunction::operator();
    virtual double operator()(const std::vector<double>& x) const
    {
        room_.assign(x.begin(), x.end());
        calls_++;
        double u = opt::hash01(x, f_.seed + 77);
        dawdle((uint64_t)(u * 1e9), slow_);
        t_.add(x);
        if (u < odds_) throw PointError();
        if (calls_ > most_) throw opt::TooLong();
        return f_(room_);
    }
    virtual Continuous* Clone() const { return new Continuous(f_, t_, odds_, slow_, most_); }
private:
    opt::Function f_;
    Tally& t_;
    double odds_;
    int slow_;
    long most_;
    mutable std::vector<double> room_;
    mutable long calls_ = 0;
};

// one object for all: nothing of its own changes
class Shared : public opt::ContinuousObjectiveFunction
{
public:
    Shared(const opt::Function& f, Tally& t, double odds, int slow) : f_(f), t_(t), odds_(odds), slow_(slow) {}
    using ContinuousObjectiveFunction::operator();
    virtual double operator()(const std::vector<double>& x) const
    {
        double u = opt::hash01(x, f_.seed + 77);
        dawdle((uint64_t)(u * 1e9), slow_);
        t_.add(x);
        if (u < odds_) throw PointError();
        return f_(x);
    }
    virtual Shared* Clone() const { return new Shared(f_, t_, odds_, slow_); }
private:
    opt::Function f_;
    Tally& t_;
    double odds_;
    int slow_;
};

struct Search
{
    opt::Function f;
    std::vector<double> start;
    bool maximize = false;
    double odds = 0;
    int slow = 0;
};

// any optimiser that goes through many points
template<class Make> std::vector<Outcome> search(Make make, const std::vector<Search>& calls, bool shared, int processors, const rc::Point& from)
{
    from.restore();
    g_processors = processors;
    std::vector<Outcome> r;
    auto o = make();
    for (auto& c : calls)
    {
        Tally t;
        Outcome out;
        opt::ContinuousParametersArray p(c.start);
        try
        {
            if (shared) o->Optimize(Shared(c.f, t, c.odds, c.slow), &p, c.maximize);
            else o->Optimize(Continuous(c.f, t, c.odds, c.slow, 600), &p, c.maximize);
        }
        catch (const std::exception& e) { out.error = "failed"; }     // which of several failures is told is open
        out.result = p.GetValues();
        out.evals = seen(t);
        r.push_back(out);
    }
    return r;
}

std::vector<Search> gen_searches(Src& s, size_t dim, int most)
{
    std::vector<Search> r;
    for (int q = s.chance(0.6) ? 1 : s.range(2, most); q > 0; q--)
    {
        Search c;
        typedef opt::Function F;
        c.f = opt::gen_function(s, {F::Quadratic, F::Absolute, F::Rosenbrock, F::Waves, F::Peaks, F::Steps, F::Plateau, F::Rough, F::Constant, F::Hash, F::Linear});
        for (size_t i = 0; i < dim; i++) c.start.push_back(opt::simple_real(s, 10));
        c.maximize = s.flip();
        if (s.chance(0.15)) c.odds = s.pick(std::vector<double>{0.001, 0.01, 0.1, 1});
        if (s.flip()) c.slow = s.range(1, 200);
        s.note("function", c.f.text()); s.note("maximize", c.maximize); s.note("start", c.start);
        r.push_back(c);
    }
    return r;
}
void label(Src& s, const std::vector<Outcome>& a)
{
    for (auto& o : a) { s.label(o.error.empty() ? "completed" : "failed"); if (o.error.empty() && o.evals.count > 1) s.nontrivial(); }
    if (a.size() > 1) s.label("used again");
}
int gen_processors(Src& s) { return s.chance(0.3) ? 2 : s.range(2, 9); }
}

static void genetic(Src& s)
{
    ga::Config c;
    do { c = ga::gen_config(s, 24, 8); } while (ga::leaf_count(c.d) == 0);
    if (s.chance(0.3)) c.cache = 5;
    if (s.chance(0.2)) c.stop = s.real(0, 3);
    int n = gen_processors(s);
    s.note("processors", n);
    s.note("parameters", ga::text(c.d));
    s.note("configuration", c.text());
    std::vector<Call> calls;
    for (int q = s.chance(0.6) ? 1 : s.range(2, 3); q > 0; q--)
    {
        Call k;
        k.f = ga::gen_function(s);
        if (s.chance(0.15)) k.odds = s.pick(std::vector<double>{0.002, 0.02, 1});
        if (s.flip()) k.slow = s.range(1, 200);
        calls.push_back(k);
        s.note("function", std::string(k.f.name()));
    }
    rc::begin(s, true);
    rc::Point from = rc::Point::here();
    std::vector<Outcome> a = breed(c, calls, 1, from), b = breed(c, calls, n, from);
    compare(a, b, n);
    label(s, a);
}

static void random_search(Src& s)
{
    opt::no_plot();
    bool inner = !s.chance(0.2);
    conf::Config in = conf::gen_config(s, conf::HJ, conf::RB);
    in.n = std::min<size_t>(in.n, 30);
    opt::ContinuousOptimizer::shared_ptr inner_optimizer = in.make();
    int points = s.size(1, 16);
    double lo = s.flip() ? -10 : opt::simple_real(s, 10), hi = lo + (s.flip() ? 20 : 10 * s.unit());
    int n = gen_processors(s);
    s.note("processors", n); s.note("points", points); s.note("lower", lo); s.note("upper", hi);
    s.note("inner", inner ? in.text() : std::string("none"));
    std::vector<Search> calls = gen_searches(s, s.range(1, 4), 3);
    rc::begin(s, true);
    rc::Point from = rc::Point::here();
    auto make = [&] { return std::make_shared<opt::RandomSearch>(points, lo, hi, inner ? inner_optimizer.get() : NULL); };
    std::vector<Outcome> a = search(make, calls, !inner, 1, from), b = search(make, calls, !inner, n, from);
    compare(a, b, n);
    label(s, a);
    s.label(inner ? conf::kNames[in.k] : "no inner optimiser");
}

// the library's class lacks one function
namespace
{
class Grid : public k52::optimization::GridSearch
{
public:
    Grid(double p, double lo, double hi) : GridSearch(p, lo, hi) {}
    using GridSearch::Optimize;
    virtual void Optimize(const k52::optimization::IObjectiveFunction& f, k52::optimization::IParameters* p, bool) { GridSearch::Optimize(f, p); }
};
}

static void grid_search(Src& s)
{
    size_t dim = s.range(1, 3);
    double lo = s.range(-5, 5), precision = s.pick(std::vector<double>{0.25, 0.5, 1, 2, 0.3});
    double hi = lo + precision * s.range(0, dim == 1 ? 60 : dim == 2 ? 12 : 5);
    int n = gen_processors(s);
    s.note("processors", n); s.note("lower", lo); s.note("upper", hi); s.note("precision", precision);
    std::vector<Search> calls = gen_searches(s, dim, 3);
    rc::begin(s, true);
    rc::Point from = rc::Point::here();
    auto make = [&] { return std::make_shared<Grid>(precision, lo, hi); };
    std::vector<Outcome> a = search(make, calls, true, 1, from), b = search(make, calls, true, n, from);
    for (auto& o : a) if (!o.error.empty()) o.result.clear();          // parameters are left anywhere on the grid
    for (auto& o : b) if (!o.error.empty()) o.result.clear();
    compare(a, b, n);
    label(s, a);
}

Property pbt::property()
{
    Property p = {"C34",
        {{"genetic", 4, genetic}, {"random_search", 4, random_search}, {"grid_search", 2, grid_search}},
        10000, 300000,
        "Genetic algorithms (with and without cache, up to 3 runs of one object), random searches (with and without an inner optimiser) and grid searches, some "
        "with objectives that throw at certain points, from the same state of the random generator with 1 and with 2 to 9 processors, built with ThreadSanitizer: "
        "reports, results, failures and the set of evaluated points are compared. Non-trivial: a completed run with at least two evaluations.",
        {"The schedules of the threads are the operating system's, varied by how long an evaluation takes.",
         "The objectives share nothing but atomic counters; those of a random search with an inner optimiser have a work area of their own in each clone."}};
    p.batch = 50;
    p.nondeterministic = true;
    p.block_limit = 20;
    return p;
}
