// C25: sampling optimisers stay within their bounds and return the best sample.
#include "opt_util.h"
#include <set>
using namespace pbt;
using namespace opt;

namespace
{
typedef Function F;
const std::vector<F::Kind> kAll = {F::Linear, F::Quadratic, F::Hash, F::Steps, F::Waves, F::Peaks, F::Constant, F::Rosenbrock, F::Plateau};

void gen_bounds(Src& s, double& lo, double& hi)
{
    if (s.flip()) { lo = s.range(-10, 10); hi = lo + s.range(0, 20); }
    else { lo = simple_real(s, 100); hi = lo + (s.chance(0.3) ? s.mag(-6, 6) : s.real(0, 20)); if (hi < lo) std::swap(lo, hi); }
}

Point gen_start(Src& s, size_t n, double lo, double hi)
{
    Point p(n);
    bool inside = s.flip();
    for (auto& e : p) e = inside ? lo + s.unit() * (hi - lo) : simple_real(s, 200);
    return p;
}

// within the bounds up to the rounding of base * (hi - lo) + lo
bool within(double e, double lo, double hi)
{
    double slack = 4e-16 * (std::fabs(lo) + std::fabs(hi));
    return e >= lo - slack && e <= hi + slack;
}

// An optimiser of the harness: some steps of a deterministic walk, perhaps for the worse.
struct Walk { std::mutex m; std::vector<std::pair<Point, Point>> runs; long fail_at = -1; };
class Walker : public ContinuousOptimizer
{
public:
    Walker(uint64_t seed, int steps, std::shared_ptr<Walk> w) : seed_(seed), steps_(steps), w_(w) {}
    virtual Walker* Clone() const { return new Walker(seed_, steps_, w_); }
    virtual std::string get_name() const { return "walker"; }
protected:
    virtual std::vector<double> FindOptimalParameters(const std::vector<double>& start)
    {
        Point p = start;
        for (int i = 0; i < steps_; i++)
        {
            CountObjectiveFunctionValueToMinimize(p);
            for (size_t k = 0; k < p.size(); k++) p[k] += hash01(p, seed_ + k) - 0.5;
        }
        std::lock_guard<std::mutex> lock(w_->m);
        w_->runs.push_back({start, p});
        return p;
    }
private:
    uint64_t seed_;
    int steps_;
    std::shared_ptr<Walk> w_;
};
}

static void random_search(Src& s)
{
    bool inner = s.flip();
    int n = s.chance(0.05) ? 0 : s.size(1, 60);
    size_t dim = s.chance(0.05) ? 0 : s.range(1, 6);
    double lo, hi;
    gen_bounds(s, lo, hi);
    g_processors = s.chance(0.6) ? 1 : s.range(2, 4);
    rc::begin(s);
    std::shared_ptr<Walk> walk(new Walk());
    Walker walker(s.draw(0xffff), s.range(0, 3), walk);
    s.note("points", n); s.note("dimension", dim); s.note("lower", lo); s.note("upper", hi); s.note("inner optimiser", inner); s.note("processors", g_processors.load());
    RandomSearch search(n, lo, hi, inner ? &walker : NULL);
    for (int q = s.chance(0.7) ? 1 : s.range(2, 3); q > 0; q--)
    {
        Function f = gen_function(s, kAll);
        gen_undefined(s, f);
        bool maximize = s.flip();
        Point start = gen_start(s, dim, lo, hi);
        s.note("function", f.text()); s.note("maximize", maximize);
        LogPtr log(new Log());
        ContinuousParametersArray p(start);
        walk->runs.clear();
        if (n == 0)
        {
            must_throw<std::exception>("a search of no points", [&]{ search.Optimize(Objective(f, log), &p, maximize); });
            check(p.GetValues() == start, "the parameters were changed");
            s.label("no points");
            continue;
        }
        search.Optimize(Objective(f, log), &p, maximize);
        Point result = p.GetValues();
        check(result.size() == dim, "the result has ", result.size(), " values");
        std::vector<Point> starts, results;
        if (inner)
            for (auto& r : walk->runs) { starts.push_back(r.first); results.push_back(r.second); }
        else
        {
            for (auto& e : log->evals) { starts.push_back(e.p); }
            results = starts;
        }
        check((int)starts.size() == n, inner ? Lit{"the inner optimiser ran "} : Lit{"the function was evaluated "}, starts.size(), " times, not ", n, " times");
        std::set<Point> different;
        double best = 0;
        bool among = false;
        for (int i = 0; i < n; i++)
        {
            for (double e : starts[i]) check(within(e, lo, hi), "the point ", starts[i], " is outside ", lo, "..", hi);
            check(starts[i].size() == dim, "a point has ", starts[i].size(), " values");
            double v = f(results[i]);
            if (i == 0 || better(v, best, maximize)) best = v;
            if (results[i] == result) among = true;
            different.insert(starts[i]);
        }
        check(among, "the result ", result, " is none of the points");
        check(same_value(f(result), best), "the result ", result, " has value ", f(result), " but the best found has ", best);
        if (different.size() > 1) { s.nontrivial(); s.label(inner ? "inner" : "plain"); }
        // independent uniform coordinates do not coincide
        if (rc::mode == 0 && dim > 0 && hi - lo > 1e-3 * (1 + std::fabs(lo)) && n >= 5) check(different.size() > 1, "all points are the same: ", starts);
    }
}

// any coordinate of the points is spread over the bounds
static void spread(Src& s)
{
    double lo = s.range(-20, 20), hi = lo + s.range(1, 20);
    int n = 400;
    size_t dim = s.range(1, 4);
    g_processors = 1;
    rc::begin(s, true);
    RandomSearch search(n, lo, hi);
    LogPtr log(new Log());
    ContinuousParametersArray p(dim);
    Function f;
    f.kind = F::Hash;
    search.Optimize(Objective(f, log), &p, s.flip());
    s.note("dimension", dim); s.note("lower", lo); s.note("upper", hi);
    for (size_t k = 0; k < dim; k++)
    {
        int quarter[4] = {0, 0, 0, 0};
        for (auto& e : log->evals) { int q = (int)((e.p[k] - lo) / (hi - lo) * 4); quarter[q < 0 ? 0 : q > 3 ? 3 : q]++; }
        // Bernstein for 400 draws of 1/4, 1e-14
        for (int q = 0; q < 4; q++) check(std::fabs(quarter[q] - 100) <= 11 + std::sqrt(121 + 66 * 75.0), "coordinate ", k, " is in quarter ", q, " of the bounds ", quarter[q], " times of 400");
        for (size_t m = 0; m < k; m++)
        {
            int equal = 0;
            for (auto& e : log->evals) equal += e.p[k] == e.p[m];
            check(equal < 20, "coordinates ", m, " and ", k, " are the same in ", equal, " points of 400");
        }
    }
    s.nontrivial();
}

namespace
{
class Grid : public GridSearch
{
public:
    Grid(double p, double lo, double hi) : GridSearch(p, lo, hi) {}
    using GridSearch::Optimize;
    virtual void Optimize(const IObjectiveFunction& f, IParameters* p, bool maximize)
    {
        check(maximize, "harness: grid search maximizes");
        GridSearch::Optimize(f, p);
    }
};
}

static void grid(Src& s)
{
    double lo, hi, step;
    gen_bounds(s, lo, hi);
    size_t dim = s.chance(0.05) ? 0 : s.range(1, 4);
    int most = dim <= 1 ? 60 : dim == 2 ? 12 : dim == 3 ? 5 : 3;
    int steps = s.range(0, most - 1);
    if (hi == lo) { step = s.chance(0.5) ? 1 : s.mag(-3, 3); if (step < 0) step = -step; if (step == 0) step = 1; }
    else if (steps == 0) step = (hi - lo) * (1.01 + s.unit() * 3);
    else step = (hi - lo) / (steps + (s.flip() ? 0 : 0.95 * s.unit() + 0.02));
    bool reversed = hi > lo && s.chance(0.05);
    if (reversed) std::swap(lo, hi);
    g_processors = s.chance(0.6) ? 1 : s.range(2, 4);
    s.note("lower", lo); s.note("upper", hi); s.note("precision", step); s.note("dimension", dim); s.note("processors", g_processors.load());
    rc::begin(s);
    Grid search(step, lo, hi);
    for (int q = s.chance(0.8) ? 1 : 2; q > 0; q--)
    {
        Function f = gen_function(s, kAll);
        gen_undefined(s, f);
        s.note("function", f.text());
        LogPtr log(new Log());
        Point start = gen_start(s, dim, std::min(lo, hi), std::max(lo, hi));
        ContinuousParametersArray p(start);
        // floor((hi-lo)/step)+1 values; where the quotient is an integer up to rounding, either
        double quotient = (hi - lo) / step;
        double near = std::round(quotient);
        bool integral = std::fabs(quotient - near) <= 1e-9 * (1 + std::fabs(near));
        if (quotient < 0)
        {
            if (integral) throw Discard();
            if (std::floor(quotient) + 1 <= 0)
            {
                must_throw<std::invalid_argument>("a grid without points", [&]{ search.Optimize(Objective(f, log), &p); });
                check(log->evals.empty() && p.GetValues() == start, "evaluated or changed nevertheless");
                s.label("rejected");
                return;
            }
            throw Discard();
        }
        search.Optimize(Objective(f, log), &p);
        double root = std::round(std::pow((double)log->evals.size(), dim ? 1.0 / dim : 1));
        long per = dim ? (long)root : 1;
        long total = 1;
        for (size_t k = 0; k < dim; k++) total *= per;
        check(total == (long)log->evals.size(), log->evals.size(), " evaluations make no grid of dimension ", dim);
        if (dim) check(per == (integral ? near + 1 : std::floor(quotient) + 1) || (integral && per == near), per, " values of each coordinate for ", lo, "..", hi, " in steps of ", step);
        std::set<std::vector<long>> seen;
        double best = 0;
        double scale = std::fabs(lo) + std::fabs(hi) + step;
        bool among = false;
        Point result = p.GetValues();
        for (auto& e : log->evals)
        {
            check(e.p.size() == dim, "a point of ", e.p.size(), " coordinates");
            std::vector<long> at;
            for (double x : e.p)
            {
                double k = std::round((x - lo) / step);
                // steps that are lost in rounding
                if (step < 1e-11 * scale) k = std::min(std::max(k, 0.0), per - 1.0);
                check(std::fabs(lo + k * step - x) <= 1e-12 * scale && k >= 0 && k < per, "the point ", e.p, " is not on the grid");
                at.push_back((long)k);
            }
            check(step < 1e-11 * scale || seen.insert(at).second, "the point ", e.p, " was evaluated twice");
            if (&e == &log->evals[0] || better(e.f, best, true)) best = e.f;
            if (e.p == result) among = true;
        }
        check(among, "the result ", result, " was not evaluated");
        check(same_value(f(result), best), "the result ", result, " has value ", f(result), ", the best point of the grid has ", best);
        if (log->evals.size() > 1) { s.nontrivial(); s.label("dimension " + std::to_string(dim)); }
    }
}

static void annealing(Src& s)
{
    int n = s.chance(0.7) ? s.size(0, 60) : s.range(100, 2000);
    size_t dim = s.range(1, 5);
    double lo, hi;
    gen_bounds(s, lo, hi);
    rc::begin(s);
    g_processors = 1;
    s.note("iterations", n); s.note("dimension", dim); s.note("lower", lo); s.note("upper", hi);
    SimulatedAnnealing sa(n, lo, hi);
    if (s.chance(0.05))
    {
        // nothing to change: refused (or, without iterations, done)
        ContinuousParametersArray none(0);
        LogPtr log(new Log());
        Function f = gen_function(s, kAll);
        try { sa.Optimize(Objective(f, log), &none, s.flip()); check(n == 0, "a walk through no parameters"); }
        catch (std::invalid_argument&) { check(n > 0, "a walk of no iterations is refused"); }
        check(none.GetValues().empty() && log->evals.empty(), "a walk through no parameters evaluated ", log->evals.size(), " points");
        s.label("no parameters");
    }
    for (int q = s.chance(0.8) ? 1 : 2; q > 0; q--)
    {
        Function f = gen_function(s, kAll);
        gen_undefined(s, f);
        bool maximize = s.flip();
        Point start = gen_start(s, dim, lo, hi);
        s.note("function", f.text()); s.note("maximize", maximize); s.note("start", start);
        LogPtr log(new Log());
        ContinuousParametersArray p(start);
        sa.Optimize(Objective(f, log), &p, maximize);
        Point result = p.GetValues();
        // the history: which point was current in each iteration?
        std::set<Point> seen;
        for (auto& e : log->evals) seen.insert(e.p);
        check(n == 0 ? result == start : seen.count(result) == 1, "the result ", result, " was never evaluated");
        // coordinates of every point are initial ones or within the bounds
        Point first = start;
        for (auto& e : log->evals)
        {
            check(e.p.size() == dim, "a point of ", e.p.size(), " coordinates");
            for (size_t k = 0; k < dim; k++)
                check(e.p[k] == start[k] || within(e.p[k], lo, hi), "evaluated ", e.p, " whose coordinate ", k, " is neither the initial one nor in ", lo, "..", hi);
        }
        // Follow the walk: a new point (a neighbour) differs in one coordinate at most from the
        // current one. If it is better it must become the current one, so that all points after
        // it are it or neighbours of a later current point.
        std::vector<Eval> e = log->evals;
        if ((long)e.size() == 2L * n)
        {
            s.label("history followed");
            Point cur = start;
            double curv = f(start);
            double expect = 0, variance = 0, accepted = 0;
            std::vector<long> changed(dim, 0), low(dim, 0);
            for (long i = 0; i < n; i++)
            {
                // current and neighbour in either order; the neighbour of i is judged by the current of i+1
                const Eval &a = e[2 * i], &b = e[2 * i + 1];
                const Eval* nb = a.p == cur ? &b : b.p == cur ? &a : NULL;
                check(nb != NULL, "iteration ", i + 1, " evaluates ", a.p, " and ", b.p, ", neither is the current point ", cur);
                int diff = 0;
                for (size_t k = 0; k < dim; k++)
                    if (nb->p[k] != cur[k]) { diff++; changed[k]++; low[k] += nb->p[k] < lo + (hi - lo) / 2; check(within(nb->p[k], lo, hi), "the neighbour ", nb->p, " leaves ", lo, "..", hi); }
                check(diff <= 1, "the neighbour ", nb->p, " of ", cur, " differs in ", diff, " coordinates");
                bool moved;
                if (i + 1 < n) { const Eval &c = e[2 * i + 2], &d = e[2 * i + 3]; bool could_stay = c.p == cur || d.p == cur; bool could_move = c.p == nb->p || d.p == nb->p; if (could_stay && could_move) { /* ambiguous only when the candidates are the next neighbour of each other */ moved = c.p == nb->p; if (nb->p == cur) moved = true; } else { check(could_stay || could_move, "iteration ", i + 2, " evaluates neither the old nor the new point"); moved = could_move; } }
                else moved = result == nb->p;
                double nv = f(nb->p);
                if (better(nv, curv, maximize)) check(moved, "iteration ", i + 1, " did not move from ", cur, " (", curv, ") to the better ", nb->p, " (", nv, ")");
                else if (nb->p != cur)
                {
                    double t = (double)(n - (i + 1)) / n;
                    double delta = std::fabs(nv - curv);
                    if (std::isnan(delta)) check(!moved, "moved from ", cur, " (", curv, ") to ", nb->p, " (", nv, ")");
                    else {
                    double pr = delta == 0 ? 1 : t == 0 ? 0 : std::exp(-delta / t);
                    if (i + 1 < n || result == cur || delta != 0)
                    {
                        if (t == 0 && delta > 0) check(!moved, "moved to the worse ", nb->p, " at temperature 0");
                        if (delta == 0) { check(moved || t == 0, "did not move to an equal point"); }
                        else { expect += pr; variance += pr * (1 - pr); accepted += moved; }
                    }
                    }
                }
                if (moved) { cur = nb->p; curv = nv; }
            }
            check(result == cur, "the walk ended at ", cur, " but the result is ", result);
            if (rc::mode == 0)
            {
                const double L = 33;
                check(std::fabs(accepted - expect) <= L + std::sqrt(L * L + 2 * L * variance), "moved to worse points ", accepted, " times, ", expect, " expected");
                if (variance > 10) s.label("acceptance");
                // every coordinate is changed as often, to values of the whole range
                if (hi - lo > 1e-3 * (1 + std::fabs(lo)))
                    for (size_t k = 0; k < dim; k++)
                    {
                        double v = n * (1.0 / dim) * (1 - 1.0 / dim);
                        check(std::fabs(changed[k] - (double)n / dim) <= L / 3 + std::sqrt(L * L / 9 + 2 * L * v) + 1, "coordinate ", k, " of ", dim, " was changed ", changed[k], " times in ", n, " iterations");
                        check(std::fabs(low[k] - changed[k] / 2.0) <= L / 3 + std::sqrt(L * L / 9 + L * changed[k] / 2.0) + 1, "coordinate ", k, " was changed to the lower half of the bounds ", low[k], " times of ", changed[k]);
                    }
            }
        }
        if (n > 0) s.nontrivial();
    }
}

Property pbt::property()
{
    Property p = {"C25",
        {{"random_search", 4, random_search}, {"spread", 1, spread}, {"grid", 4, grid}, {"annealing", 4, annealing}},
        6000, 400000,
        "Random search (plain and with an inner optimiser), grid search and simulated annealing with generated bounds, sizes, dimensions, directions, functions "
        "(smooth, hashed, stepped, constant; some of their values are not numbers), generator outputs and numbers of processors; every evaluation is recorded and accounted for. Non-trivial: more than one "
        "different point was sampled.",
        {"Grid sizes where the quotient of the width and the precision is an integer up to rounding may count the last point or not.",
         "The number of moves to worse points is compared with its expectation only up to deviations of probability 1e-14 (Bernstein)."}};
    p.batch = 100;
    p.before_case = no_plot;
    return p;
}
