// C26: local optimisers reach the optimum of well-behaved functions and never end worse.
#include "opt_util.h"
using namespace pbt;
using namespace opt;

namespace
{
typedef Function F;

struct Quadratic
{
    F f;
    Point centre;
    double lmin, lmax;      // extreme curvatures
    double low;             // the value at the centre
};

// positive definite: eigenvalues and rotations are generated; simple ones are diagonal
Quadratic gen_quadratic(Src& s, int n, double condition)
{
    Quadratic q;
    std::vector<Point> e(n, Point(n, 0));
    for (int i = 0; i < n; i++) e[i][i] = 1;
    if (s.chance(0.7))
        for (int i = 0; i < n; i++)
            for (int j = i + 1; j < n; j++)
            {
                double t = s.unit() * 6.283185307179586;
                for (int k = 0; k < n; k++)
                {
                    double a = e[i][k], b = e[j][k];
                    e[i][k] = std::cos(t) * a - std::sin(t) * b;
                    e[j][k] = std::sin(t) * a + std::cos(t) * b;
                }
            }
    q.f.kind = F::Quadratic;
    q.f.a.assign(n, Point(n, 0));
    q.lmin = 1e300; q.lmax = 0;
    double base = s.chance(0.5) ? 1 : s.flip() ? 2 : 0.3 + 2 * s.unit();
    for (int k = 0; k < n; k++)
    {
        double l = base * (s.chance(0.3) ? 1 : std::pow(condition, s.unit()));
        q.lmin = std::min(q.lmin, l); q.lmax = std::max(q.lmax, l);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q.f.a[i][j] += l * e[k][i] * e[k][j];
    }
    for (int i = 0; i < n; i++) q.centre.push_back(simple_real(s, 8));
    q.f.centre = q.centre;
    if (s.flip()) q.f.offset = simple_real(s, 10);
    q.low = q.f.offset;
    return q;
}

enum Method { HJ, NM, CG, SD, RB };
const char* const kNames[] = {"Hooke-Jeeves", "Nelder-Mead", "conjugate gradient", "steepest descent", "Rosenbrock"};

double choose(Src& s, double usual, double lo, double hi) { return s.chance(0.4) ? usual : lo + s.unit() * (hi - lo); }
double power(Src& s, int lo, int hi) { return std::pow(10, s.range(lo, hi)); }

struct Configured
{
    ContinuousOptimizer::shared_ptr o;
    double excess = 0;      // how far above the minimum the result may be
    std::string text;
};

Configured configure(Src& s, Method m, const Quadratic& q, int n)
{
    Configured c;
    std::ostringstream t;
    double floor = 1e-9 * (1 + q.lmax / q.lmin);
    switch (m)
    {
    case HJ:
        {
            double acc = choose(s, 3.5, 1, 5), step = choose(s, 1, 0.05, 10), div = choose(s, 10, 1.5, 10), prec = power(s, -8, -3);
            // a move of d is followed by one of (acceleration - 1) * d: nearly constant, it may be
            // too small for any limit
            if (acc > 1.95 && acc < 2.05) acc = 1.95;
            c.o.reset(new HookeJeevesMethod(acc, step, 100000, prec, div));
            // no step of prec * div (or less) along an axis improves: the derivatives are within lmax * h / 2
            double h = prec * div;
            c.excess = 2 * n * std::pow(q.lmax * h / 2, 2) / (2 * q.lmin) + floor;
            t << "acceleration " << show(acc) << " step " << show(step) << " divider " << show(div) << " precision " << show(prec);
            break;
        }
    case NM:
        {
            double l = choose(s, 10, 0.5, 20), prec = power(s, -12, -8);
            c.o.reset(new BoundedNelderMead(l, prec, -1000, 1000));
            c.excess = 1e-3 * q.lmax;
            t << "edge " << show(l) << " precision " << show(prec);
            break;
        }
    case CG:
        {
            bool usual = s.chance(0.3);
            double prec = usual ? 1e-4 : power(s, -5, -2), inc = usual ? 1e-5 : power(s, -5, -2);
            c.o.reset(usual ? new ConjugateGradientMethod() : new ConjugateGradientMethod(prec, inc, 5 * n + 6));
            c.excess = 2 * prec * prec / (2 * q.lmin) + floor;
            t << "precision " << show(prec) << " increment " << show(inc);
            break;
        }
    case SD:   // in one dimension its line search finds the optimum
        {
            double prec = power(s, -6, -3), inc = power(s, -5, -2);
            c.o.reset(new SteepestDescentMethod(inc, n == 1 ? 6 : 20 + 12 * q.lmax / q.lmin, prec));
            c.excess = 2 * prec * prec / (2 * q.lmin) + floor;
            t << "precision " << show(prec) << " increment " << show(inc);
            break;
        }
    default:
        {
            double prec = power(s, -10, -6), first = choose(s, 1, 0.1, 3), most = choose(s, 3, 0.5, 5);
            c.o.reset(new HleborodovRosenbrockMethod(prec, 10000, first, most));
            c.excess = 1e-5;
            t << "precision " << show(prec) << " steps " << show(first) << ".." << show(most);
        }
    }
    c.text = t.str();
    return c;
}

double run(ContinuousOptimizer& o, const F& f, const Point& start, bool maximize, Point& result)
{
    LogPtr log(new Log());
    log->store = false;
    ContinuousParametersArray p(start);
    try { o.Optimize(Objective(f, log, maximize), &p, maximize); }
    catch (TooLong&) { fail("still searching after ", log->count, " evaluations"); }
    result = p.GetValues();
    return f(result);
}
}

static void converge(Src& s)
{
    Method m = (Method)s.range(0, 4);
    int n = m == RB ? s.range(1, 2) : m != NM && s.chance(0.05) ? s.range(6, 9) : s.range(1, 5);
    s.note("method", std::string(kNames[m]));
    Quadratic q = gen_quadratic(s, n, m == SD ? 20 : 30);
    s.note("function", q.f.text());
    Configured c = configure(s, m, q, n);
    s.note("configuration", c.text);
    Point start(n);
    switch (s.range(0, 3))
    {
    case 0: start = q.centre; for (auto& e : start) e += s.chance(0.7) ? 0 : s.mag(-12, -2); break;  // at, or hardly off the optimum
    case 1: for (auto& e : start) e = s.range(-10, 10); break;
    default: for (auto& e : start) e = -20 + 40 * s.unit();
    }
    bool maximize = s.flip();
    s.note("start", start); s.note("maximize", maximize);
    Point r;
    double v = run(*c.o, q.f, start, maximize, r);
    check(r.size() == start.size(), "the result has ", r.size(), " values");
    if (s.noting()) s.note() << "result " << show(r) << " excess " << show(v - q.low) << "\n";
    if (m == NM && !(v - q.low <= c.excess))
    {
        // its criterion compares values, which may be equal far from the optimum by chance:
        // then not from all the starts nearby
        int bad = 1;
        for (int i = 0; i < 4; i++)
        {
            Point other = start;
            for (size_t k = 0; k < other.size(); k++) other[k] += 0.37 * (hash01(start, i * 100 + k) - 0.5);
            if (!(run(*c.o, q.f, other, maximize, r) - q.low <= c.excess)) bad++;
        }
        s.label("equal values");
        check(bad < 4, kNames[m], " ends ", v - q.low, " above the minimum, and from ", bad - 1, " of 4 starts nearby as well");
    }
    else check(v - q.low <= c.excess, kNames[m], " ends at ", r, ", ", v - q.low, " above the minimum at ", q.centre, ", more than ", c.excess);
    s.label(kNames[m]);
    if (q.f(start) - q.low > c.excess) s.nontrivial();
}

// whatever the function
static void not_worse(Src& s)
{
    int n = s.range(1, 5);
    bool hj = s.flip();
    F f = opt::gen_function(s, {F::Constant, F::Quadratic, F::Hash, F::Steps, F::Waves, F::Peaks, F::Rough, F::Rosenbrock, F::Absolute, F::Plateau});
    opt::gen_undefined(s, f);
    Point start(n);
    for (auto& e : start) e = simple_real(s, 20);
    ContinuousOptimizer::shared_ptr o;
    if (hj)
    {
        double acc = choose(s, 3.5, 0.5, 6), step = choose(s, 1, 0.01, 10), div = choose(s, 10, 1.2, 10), prec = power(s, -6, 0);
        size_t most = s.chance(0.5) ? s.range(1, 30) : 3000;
        s.note("acceleration", acc); s.note("step", step); s.note("divider", div); s.note("precision", prec); s.note("iterations", most);
        o.reset(new HookeJeevesMethod(acc, step, most, prec, div));
    }
    else
    {
        double lo = -20 - (s.flip() ? 0 : s.real(0, 100)), hi = 20 + (s.flip() ? 0 : s.real(0, 100)), l = choose(s, 10, 0.01, 60), prec = power(s, -8, 0);
        s.note("edge", l); s.note("precision", prec); s.note("lower", lo); s.note("upper", hi);
        o.reset(new BoundedNelderMead(l, prec, lo, hi));
    }
    s.note("method", std::string(hj ? "Hooke-Jeeves" : "Nelder-Mead"));
    s.note("function", f.text()); s.note("start", start);
    bool maximize = s.flip();
    s.note("maximize", maximize);
    LogPtr log(new Log());
    ContinuousParametersArray p(start);
    try { o->Optimize(Objective(f, log, maximize), &p, maximize); }
    catch (TooLong&) { fail("still searching after ", log->count, " evaluations"); }
    Point r = p.GetValues();
    double v = f(r), was = f(start);
    check(!opt::better(was, v), "ends at ", r, " with ", v, ", which is worse than ", was, " at the start");
    bool among = r == start;
    double best = was;
    for (auto& e : log->evals) { among = among || e.p == r; double g = maximize ? -e.f : e.f; if (opt::better(g, best)) best = g; }
    check(among, "the result ", r, " was never evaluated");
    // all that Nelder-Mead evaluates is compared with its best vertex, which it keeps
    check(hj || opt::same_value(v, best), "ends at ", r, " with ", v, " although a point with ", best, " was evaluated");
    if (opt::better(v, was)) s.nontrivial();
    if (f.undefined) s.label("not numbers");
    if (opt::better(best, v)) s.label("a better point was seen");
    s.label(hj ? "Hooke-Jeeves" : "Nelder-Mead");
}

// a limit on the iterations ends the search
static void limits(Src& s)
{
    int n = s.range(1, 4);
    Quadratic q = gen_quadratic(s, n, 20);
    bool convex = s.flip();
    if (!convex) q.f = opt::gen_function(s, {F::Constant, F::Quadratic, F::Hash, F::Steps, F::Waves, F::Peaks, F::Rough, F::Rosenbrock, F::Absolute, F::Plateau});
    Point start(n);
    for (auto& e : start) e = -20 + 40 * s.unit();
    size_t most = s.size(1, 12);
    bool maximize = s.flip();
    s.note("limit", most); s.note("function", q.f.text()); s.note("start", start);
    long allowed = 0;
    ContinuousOptimizer::shared_ptr o;
    switch (s.range(0, 2))
    {
    case 0:
        o.reset(new HleborodovRosenbrockMethod(1e-10, most, 1, 3));
        allowed = (long)most * (2 * n + 2);
        break;
    case 1:
        o.reset(new ConjugateGradientMethod(1e-6, 1e-3, most));
        allowed = (long)(most + 1) * (4 * n + (convex ? 60 : 60 + 4 * (long)most));
        break;
    default:
        o.reset(new SteepestDescentMethod(1e-3, most, 1e-5));
        // gradients, localization and sections of an interval of at most 4 down to 1e-5
        allowed = (long)(most + 1) * (4 * n + (convex ? 200 : 8000));
    }
    LogPtr log(new Log());
    log->store = false;
    ContinuousParametersArray p(start);
    try { o->Optimize(Objective(q.f, log, maximize), &p, maximize); }
    catch (TooLong&) { fail("still searching after ", log->count, " evaluations"); }
    check(log->count <= allowed, log->count, " evaluations in ", most, " iterations of ", o->get_name());
    if (convex) for (double e : p.GetValues()) check(std::isfinite(e), "the result is ", p.GetValues());
    s.label(o->get_name());
    s.nontrivial();
}

// a single iteration of the gradient methods goes to the minimum on the line along the gradient
static void line(Src& s)
{
    int n = s.range(1, 5);
    bool cg = s.flip();
    Quadratic q = gen_quadratic(s, n, 30);
    // the minimum on the line may be far, or very near
    double scale = s.flip() ? 1 : std::pow(10, -4 + 5 * s.unit());
    for (auto& e : q.f.a) for (auto& x : e) x *= scale;
    Point start(n);
    for (auto& e : start) e = s.flip() ? s.range(-10, 10) : -10 + 20 * s.unit();
    double prec = power(s, -6, -3), inc = power(s, -3, -2);
    bool maximize = s.flip();
    s.note("method", std::string(cg ? "conjugate gradient" : "steepest descent")); s.note("function", q.f.text()); s.note("start", start);
    s.note("precision", prec); s.note("increment", inc); s.note("maximize", maximize);
    ContinuousOptimizer::shared_ptr o;
    if (cg) o.reset(new ConjugateGradientMethod(prec, inc, 2)); else o.reset(new SteepestDescentMethod(inc, 1, prec));
    Point r;
    run(*o, q.f, start, maximize, r);
    check(r.size() == start.size(), "the result has ", r.size(), " values");
    // the quadratic is (x - c)' A (x - c) / 2 or without the half: its gradient is measured as they do
    Point g(n);
    double gg = 0, gag = 0, size = std::fabs(q.f(start)) + std::fabs(q.f.offset) + 1;
    for (int i = 0; i < n; i++)
    {
        Point a = start, b = start;
        a[i] += 0.5; b[i] -= 0.5;
        g[i] = q.f(a) - q.f(b);
        gg += g[i] * g[i];
    }
    if (std::sqrt(gg) < 1) return;
    {
        Point a = start, b = start;
        for (int i = 0; i < n; i++) { a[i] += g[i] / std::sqrt(gg); b[i] -= g[i] / std::sqrt(gg); }
        gag = (q.f(a) - 2 * q.f(start) + q.f(b)) * gg;
    }
    // what the terms of the function add up to is rounded as they are
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) size += std::fabs(q.f.a[i][j] * (start[i] - q.centre[i]) * (start[j] - q.centre[j]));
    double want = gg / gag, got = 0;
    for (int i = 0; i < n; i++) got -= (r[i] - start[i]) * g[i] / gg;
    double noise = 1e-15 * size;
    double allowed = cg ? prec + want * (1e-6 + 200 * noise / (inc * inc * gag) + 200 * noise / (inc * std::sqrt(gg))) : 2 * prec + 4 * std::sqrt(8 * noise / gag);
    double aside = 0, far = 0;
    for (int i = 0; i < n; i++)
    {
        aside = std::max(aside, std::fabs(r[i] - start[i] + got * g[i]));
        far = std::max(far, std::fabs(got * g[i]));
    }
    check(std::fabs(got - want) <= allowed, "one iteration goes ", got, " along the gradient ", g, ", where the minimum is at ", want, ", to ", r);
    check(aside <= 1e-3 * far + 100 * noise / inc, "one iteration leaves the line along the gradient ", g, " by ", aside, ", to ", r);
    s.nontrivial();
    s.label(cg ? "conjugate gradient" : "steepest descent");
}

Property pbt::property()
{
    Property p = {"C26",
        {{"converge", 6, converge}, {"not_worse", 4, not_worse}, {"limits", 1, limits}, {"line", 1, line}},
        40000, 1500000,
        "Convex quadratics (concave when maximized) with generated curvatures between 0.3 and 70, rotations, optima, values at the optimum, starts (also at the optimum), "
        "and configurations of five optimisers; the excess over the minimum is compared with what the configured accuracy allows. Single iterations of the gradient methods against the minimum on the line along the gradient. Functions of all kinds (some of their values are not numbers) for the "
        "comparison of the result with the start. Non-trivial: the start was not good enough already, or was improved.",
        {"Hooke-Jeeves accelerations are not nearly 2 in the comparison with the optimum (its moves shrink too slowly for any limit there).", "Conditioning up to 30, increments of 1e-5..1e-2, minima in -10..10.", "Rosenbrock's method (with the authors' modifications) in one and two dimensions only: it does not converge reliably in more.",
         "Nelder-Mead compares values: where it stops early because values are equal by chance, it has to succeed from most starts nearby."}};
    p.batch = 50;
    p.cpu_limit = 60;
    p.before_case = no_plot;
    return p;
}
