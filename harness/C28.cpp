// C28: maximising a function is minimising its negative; results are written back.
#include "opt_config.h"
#include "params.h"
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/flip_bit_mutator.h>
using namespace pbt;
using namespace opt;
using namespace conf;

namespace
{
typedef Function F;

// parameters of the caller's own: with limits, and a record of what happens to them
struct Watch { long set = 0, checked = 0; };
class Limited : public IContinuousParameters
{
public:
    Limited(const Point& v, double lo, double hi, std::shared_ptr<Watch> w) : v_(v), lo_(lo), hi_(hi), w_(w) {}
    virtual void SetValues(const std::vector<double>& v) { if (v.size() != v_.size()) throw std::invalid_argument("size"); v_ = v; w_->set++; }
    virtual std::vector<double> GetValues() const { return v_; }
    virtual bool CheckConstraints() const { w_->checked++; return holds(v_); }
    virtual Limited* Clone() const { return new Limited(v_, lo_, hi_, w_); }
    bool holds(const Point& v) const { if (lo_ <= -1e300) return true; for (double e : v) if (!(e >= lo_ && e <= hi_)) return false; return true; }
private:
    Point v_;
    double lo_, hi_;
    std::shared_ptr<Watch> w_;
};

// takes the parameters themselves, of any kind
class OfParameters : public ContinuousObjectiveFunction
{
public:
    OfParameters(const F& f, LogPtr log, bool negate, std::shared_ptr<long> foreign) : inner_(f, log, negate), f_(f), log_(log), negate_(negate), foreign_(foreign) {}
    virtual double operator()(const IParameters* const p) const { return ContinuousObjectiveFunction::operator()(p); }
    virtual double operator()(const IContinuousParameters* const p) const
    {
        if (!dynamic_cast<const Limited*>(p)) ++*foreign_;
        return inner_(p->GetValues());
    }
    virtual double operator()(const std::vector<double>& v) const { return inner_(v); }
    virtual OfParameters* Clone() const { return new OfParameters(f_, log_, negate_, foreign_); }
private:
    Objective inner_;
    F f_;
    LogPtr log_;
    bool negate_;
    std::shared_ptr<long> foreign_;
};

const std::vector<F::Kind> kAll = {F::Quadratic, F::Absolute, F::Rosenbrock, F::Waves, F::Peaks, F::Steps, F::Plateau, F::Rough, F::Constant, F::Hash, F::Linear};

Config configure(Src& s)
{
    Config c = gen_config(s);
    if (c.k == RS && s.flip())
    {
        Config in = gen_config(s, HJ, RB);
        if (in.k == HJ || in.k == NM) in.n = std::min<size_t>(in.n, 50);
        c.inner = in.make();
        c.n = std::min<size_t>(c.n, 6);
        s.note("inner optimiser", in.text());
    }
    s.note("optimiser", c.text());
    return c;
}

struct Outcome
{
    std::string how;
    Point result;
    std::vector<Eval> evals;
};

Outcome perform(ContinuousOptimizer& o, const F& f, IContinuousParameters& p, bool maximize, bool negate, bool by_interface)
{
    Outcome r;
    LogPtr log(new Log());
    log->most = 3000;
    Objective obj(f, log, negate);
    try
    {
        if (by_interface)
        {
            IOptimizer& any = o;
            const IObjectiveFunction& g = obj;
            IParameters* q = &p;
            any.Optimize(g, q, maximize);
        }
        else o.Optimize(obj, &p, maximize);
        r.how = "returned";
        r.result = p.GetValues();
    }
    catch (TooLong&) { r.how = "too long"; }
    catch (std::exception& e) { r.how = std::string("threw ") + e.what(); }
    r.evals.swap(log->evals);
    return r;
}
}

static void mirrored(Src& s)
{
    rc::begin(s);
    g_processors = s.chance(0.8) ? 1 : s.range(2, 4);
    Config c = configure(s);
    F f = gen_function(s, kAll);
    gen_undefined(s, f);
    int n = s.chance(0.03) ? s.range(7, 12) : s.range(1, 6);
    Point start(n);
    for (auto& e : start) e = simple_real(s, s.chance(0.1) ? 40 : 10);
    bool up = s.flip();
    s.note("function", f.text()); s.note("start", start); s.note("first direction", std::string(up ? "maximize" : "minimize")); s.note("processors", g_processors.load());
    rc::Point here = rc::Point::here();
    ContinuousParametersArray p1(start), p2(start);
    Outcome a = perform(*c.make(), f, p1, up, false, s.flip());
    here.restore();
    Outcome b = perform(*c.make(), f, p2, !up, true, s.flip());
    if (c.k == RS && g_processors > 1)    // evaluated in any order, and exceptions stop it anywhere
    {
        if (a.how == "too long" || b.how == "too long") return;
        auto number = [](double e, double g) { return e < g || (e == e && g != g); };    // what is no number is last
        auto less = [&](const Eval& x, const Eval& y) { return std::lexicographical_compare(x.p.begin(), x.p.end(), y.p.begin(), y.p.end(), number); };
        std::sort(a.evals.begin(), a.evals.end(), less);
        std::sort(b.evals.begin(), b.evals.end(), less);
    }
    for (size_t i = 0; i < a.evals.size() && i < b.evals.size(); i++)
        check(same(a.evals[i].p, b.evals[i].p), "evaluation ", i, " is of ", a.evals[i].p, " but of ", b.evals[i].p, " when the negative is ", up ? Lit{"minimized"} : Lit{"maximized"});
    check(a.how == b.how, a.how, " but ", b.how, " for the negative");
    check(a.evals.size() == b.evals.size(), a.evals.size(), " evaluations but ", b.evals.size(), " for the negative");
    check(same(a.result, b.result), "returns ", a.result, " but ", b.result, " for the negative");
    s.label(kNames[c.k]);
    if (c.inner) s.label("inner optimiser");
    if (a.how != "returned") s.label(a.how == "too long" ? "too long" : "threw");
    if (a.evals.size() > 3) s.nontrivial();
}

// the caller's parameters get the result; what they do not allow is not evaluated
static void limited(Src& s)
{
    rc::begin(s);
    g_processors = 1;
    Config c = gen_config(s, HJ, SA);
    s.note("optimiser", c.text());
    F f = gen_function(s, kAll);
    gen_undefined(s, f);
    int n = s.range(1, 5);
    bool tight = s.chance(0.4);
    double lo = tight ? -8 * s.unit() : -1e300, hi = tight ? 8 * s.unit() : 1e300;
    Point start(n);
    for (auto& e : start) e = tight ? s.chance(0.05) ? simple_real(s, 10) : lo + (hi - lo) * s.unit() : simple_real(s, 10);
    bool maximize = s.flip();
    s.note("function", f.text()); s.note("start", start); s.note("maximize", maximize); s.note("lower limit", lo); s.note("upper limit", hi);
    std::shared_ptr<Watch> w(new Watch());
    std::shared_ptr<long> foreign(new long(0));
    Limited p(start, lo, hi, w);
    LogPtr log(new Log());
    log->most = 3000;
    std::string how;
    try { c.make()->Optimize(OfParameters(f, log, false, foreign), &p, maximize); how = "returned"; }
    catch (TooLong&) { how = "too long"; }
    catch (std::logic_error&) { how = "logic_error"; }
    catch (std::runtime_error& e) { how = std::string("threw ") + e.what(); }
    check(*foreign == 0, "the function was given other parameters than the caller's, ", *foreign, " times");
    bool seen = false;
    for (auto& e : log->evals)
    {
        check(p.holds(e.p), "evaluated at ", e.p, ", which the parameters do not allow (", lo, "..", hi, ")");
        seen = seen || same(e.p, p.GetValues());
    }
    if (how == "returned")
    {
        check(p.GetValues().size() == start.size(), "the parameters have ", p.GetValues().size(), " values");
        if (c.k == HJ || c.k == NM || c.k == SA)
            check(seen, "the parameters are left at ", p.GetValues(), ", which was not evaluated");
        s.label("result");
    }
    else if (how == "logic_error") { check(tight, "logic_error although everything is allowed"); s.label("disallowed"); }
    s.label(kNames[c.k]);
    if (log->evals.size() > 1) s.nontrivial();
}

// own parameters, or through the interface: it is the same
static void alike(Src& s)
{
    rc::begin(s);
    g_processors = 1;
    Config c = configure(s);
    F f = gen_function(s, kAll);
    gen_undefined(s, f);
    Point start(s.range(1, 5));
    for (auto& e : start) e = simple_real(s, 10);
    bool maximize = s.flip();
    s.note("function", f.text()); s.note("start", start); s.note("maximize", maximize);
    rc::Point here = rc::Point::here();
    ContinuousParametersArray p1(start);
    std::shared_ptr<Watch> w(new Watch());
    Limited p2(start, -1e300, 1e300, w);
    Outcome a = perform(*c.make(), f, p1, maximize, false, false);
    here.restore();
    Outcome b = perform(*c.make(), f, p2, maximize, false, true);
    check(a.evals.size() == b.evals.size(), a.evals.size(), " evaluations, but ", b.evals.size(), " with other parameters");
    for (size_t i = 0; i < a.evals.size(); i++) check(same(a.evals[i].p, b.evals[i].p), "evaluation ", i, " is of ", a.evals[i].p, " but of ", b.evals[i].p, " with other parameters");
    check(a.how == b.how && same(a.result, b.result), a.how, " ", a.result, " but ", b.how, " ", b.result, " with other parameters");
    s.label(kNames[c.k]);
    if (a.evals.size() > 3) s.nontrivial();
}

// wrong kinds
namespace
{
class Discrete : public DiscreteObjectiveFunction
{
public:
    Discrete(std::shared_ptr<long> n) : n_(n) {}
    virtual double operator()(const IDiscreteParameters* const) const { ++*n_; return 1; }
    virtual Discrete* Clone() const { return new Discrete(n_); }
private:
    std::shared_ptr<long> n_;
};
// an objective that is neither
class Neither : public IObjectiveFunction
{
public:
    Neither(std::shared_ptr<long> n) : n_(n) {}
    virtual double operator()(const IParameters* const) const { ++*n_; return 1; }
    virtual Neither* Clone() const { return new Neither(n_); }
private:
    std::shared_ptr<long> n_;
};
class NeitherParameters : public IParameters
{
public:
    virtual bool CheckConstraints() const { return true; }
    virtual NeitherParameters* Clone() const { return new NeitherParameters(); }
};
class Grid : public GridSearch
{
public:
    Grid(double p, double lo, double hi) : GridSearch(p, lo, hi) {}
    virtual void Optimize(const IObjectiveFunction& f, IParameters* p, bool) { GridSearch::Optimize(f, p); }
};
}

static void kinds(Src& s)
{
    rc::begin(s);
    g_processors = s.chance(0.8) ? 1 : 3;
    std::shared_ptr<long> count(new long(0));
    LogPtr log(new Log());
    F f = gen_function(s, kAll);
    Point start(s.range(1, 4));
    for (auto& e : start) e = simple_real(s, 10);
    ContinuousParametersArray cont(start);
    IDiscreteParameters::shared_ptr disc;
    par::Desc d = par::gen(s, 1, 10);
    disc = par::make(d);
    std::vector<double> before = par::values(disc.get());
    NeitherParameters none;
    Objective of(f, log);
    Discrete df(count);
    Neither nf(count);
    int which = s.range(0, 3);
    bool maximize = s.flip();
    IOptimizer::shared_ptr o;
    Config c;
    if (which == 0 || which == 1) { c = configure(s); o = c.make(); }
    else if (which == 2)
    {
        o = GeneticAlgorithm::Create(2 * s.range(1, 5), s.range(0, 1), s.range(1, 3), IMutator::shared_ptr(new FlipBitMutator(0.1)), 0, 1e300, "");
        s.note("optimiser", std::string("genetic algorithm"));
    }
    else { o.reset(new Grid(1, 0, 3)); s.note("optimiser", std::string("grid search")); }
    bool continuous = which != 2;
    bool reused = continuous && which != 3 && s.flip();
    if (reused) { Outcome ignored = perform(*boost::dynamic_pointer_cast<ContinuousOptimizer>(o), f, cont, maximize, false, true); cont.SetValues(start); log->evals.clear(); }
    bool wrong_parameters = s.flip() || which == 3;
    IParameters* p; const IObjectiveFunction* g;
    if (wrong_parameters)
    {
        p = s.flip() ? (IParameters*)&none : continuous ? (IParameters*)disc.get() : (IParameters*)&cont;
        g = s.chance(0.2) ? (const IObjectiveFunction*)&nf : continuous == s.chance(0.8) ? (const IObjectiveFunction*)&of : (const IObjectiveFunction*)&df;
    }
    else
    {
        p = continuous ? (IParameters*)&cont : (IParameters*)disc.get();
        g = s.flip() ? (const IObjectiveFunction*)&nf : continuous ? (const IObjectiveFunction*)&df : (const IObjectiveFunction*)&of;
    }
    s.note("wrong parameters", wrong_parameters); s.note("maximize", maximize); s.note("used before", reused);
    bool max = which == 2 ? true : maximize;
    must_throw<std::exception>(wrong_parameters ? "parameters of the wrong kind" : "a function of the wrong kind", [&]{ o->Optimize(*g, p, max); });
    check(*count == 0 && log->evals.empty(), "the function was evaluated");
    check(cont.GetValues() == start, "the parameters were changed from ", start, " to ", cont.GetValues());
    check(par::values(disc.get()) == before, "the parameters were changed");
    // functions reject parameters of the wrong kind as well
    const IObjectiveFunction& any1 = of; const IObjectiveFunction& any2 = df;
    must_throw<std::logic_error>("a continuous function of discrete parameters", [&]{ any1(disc.get()); });
    must_throw<std::logic_error>("a discrete function of continuous parameters", [&]{ any2(&cont); });
    must_throw<std::logic_error>("a continuous function of other parameters", [&]{ any1(&none); });
    must_throw<std::logic_error>("a discrete function of other parameters", [&]{ any2(&none); });
    check(*count == 0 && log->evals.empty(), "the function was evaluated");
    check(any1(&cont) == f(start) && log->evals.size() == 1 && log->evals[0].p == start, "the function of the interface differs");
    // the genetic algorithm does not minimize
    if (which == 2)
    {
        must_throw<std::invalid_argument>("minimizing", [&]{ o->Optimize(df, disc.get(), false); });
        check(*count == 0, "the function was evaluated");
        check(par::values(disc.get()) == before, "the parameters were changed");
    }
    s.label(which == 2 ? "genetic algorithm" : which == 3 ? "grid search" : kNames[c.k]);
    s.label(wrong_parameters ? "wrong parameters" : "wrong function");
    s.nontrivial();
}

// an optimiser of the user's own: what it evaluates and returns is what happens
namespace
{
class Own : public ContinuousOptimizer
{
public:
    struct Step { Point p; bool maximum; };
    std::vector<Step> steps;
    Point result;
    std::shared_ptr<std::vector<double>> values = std::make_shared<std::vector<double>>();
    std::shared_ptr<Point> start = std::make_shared<Point>();
    std::string wrong;
    const ContinuousObjectiveFunction* f = nullptr;
    bool maximize = false;
    virtual Own* Clone() const { return new Own(); }
    virtual std::string get_name() const { return "own"; }
protected:
    virtual std::vector<double> FindOptimalParameters(const std::vector<double>& from)
    {
        *start = from;
        values->clear();
        if (get_maximize() != maximize) wrong = "the direction is told wrongly";
        if (f && get_function_to_optimize() != f) wrong = "the function is another one";
        for (auto& e : steps)
        {
            values->push_back(e.maximum ? CountObjectiveFunctionValueToMaximize(e.p) : CountObjectiveFunctionValueToMinimize(e.p));
            if (!same(get_parameters_to_optimize()->GetValues(), e.p)) wrong = "the parameters are not those evaluated";
        }
        return result;
    }
};
}

static void own(Src& s)
{
    g_processors = 1;
    int n = s.size(0, 5);
    Own o;
    std::vector<Point> before;
    int runs = s.range(1, 3);
    bool some = false;
    ContinuousParametersArray array{Point(n)};
    std::shared_ptr<Watch> w(new Watch());
    Limited limited(Point(n), -1e300, 1e300, w);
    bool my = s.flip();
    IContinuousParameters& p = my ? (IContinuousParameters&)limited : (IContinuousParameters&)array;
    for (int run = 0; run < runs; run++)
    {
        F f = gen_function(s, kAll);
        gen_undefined(s, f);
        Point start(n);
        for (auto& e : start) e = s.chance(0.2) ? s.mag(-15, 15) : simple_real(s, 10);
        auto near = [&](Point q) { for (auto& e : q) switch (s.range(0, 5)) { case 0: e = std::nextafter(e, 1e300); break; case 1: e += s.mag(-16, -5); break; case 2: e = -e; break; default: break; } return q; };
        auto other = [&]() -> Point
        {
            switch (s.range(0, 3))
            {
            case 0: return start;
            case 1: return near(start);
            case 2: if (!o.steps.empty()) return near(s.pick(o.steps).p);
            default: { Point q(n); for (auto& e : q) e = simple_real(s, 10); return q; }
            }
        };
        o.steps.clear();
        for (int k = s.size(0, 6); k > 0; k--) o.steps.push_back({other(), s.flip()});
        o.result = other();
        o.maximize = s.flip();
        s.note("function", f.text()); s.note("start", start); s.note("result", o.result); s.note("maximize", o.maximize); s.note("evaluations", (int)o.steps.size());
        p.SetValues(start);
        LogPtr log(new Log());
        Objective obj(f, log);
        o.f = &obj;
        if (s.flip()) static_cast<IOptimizer&>(o).Optimize(static_cast<const IObjectiveFunction&>(obj), static_cast<IParameters*>(&p), o.maximize);
        else o.Optimize(obj, &p, o.maximize);
        check(o.wrong.empty(), o.wrong);
        check(same(*o.start, start), "the optimiser is started from ", *o.start, " instead of ", start);
        check(log->evals.size() == o.steps.size(), log->evals.size(), " evaluations instead of ", o.steps.size());
        for (size_t i = 0; i < o.steps.size(); i++)
        {
            check(same(log->evals[i].p, o.steps[i].p), "evaluation ", i, " is of ", log->evals[i].p, " instead of ", o.steps[i].p);
            double v = f(o.steps[i].p), want = o.steps[i].maximum == o.maximize ? v : -v;
            check((*o.values)[i] == want || (want != want && (*o.values)[i] != (*o.values)[i]), "the value ", v, " is given as ", (*o.values)[i], o.maximize ? Lit{" when maximizing"} : Lit{" when minimizing"});
        }
        check(same(p.GetValues(), o.result), "the result is ", o.result, " but ", p.GetValues(), " is written back");
        if (n && !o.steps.empty() && !same(o.steps.back().p, o.result)) some = true;
    }
    if (some) s.nontrivial();
}

Property pbt::property()
{
    Property p = {"C28",
        {{"mirrored", 5, mirrored}, {"limited", 2, limited}, {"alike", 1, alike}, {"kinds", 2, kinds}, {"own", 3, own}},
        30000, 800000,
        "Pairs of runs of equal optimisers from the same state of the generator: a generated function in one direction and its negative in the other, compared exactly in "
        "points evaluated and result; runs on parameters of the caller's own with limits; all mismatches of parameters and functions; optimisers of the harness that evaluate generated points and return any, whose result has to be what is written back. Non-trivial: more than three "
        "evaluations, or a mismatch.",
        {"Runs end by an exception of the objective after 3000 evaluations.",
         "Where an exception of the objective ends a run the parameters are not claimed to be restored."}};
    p.batch = 50;
    p.cpu_limit = 60;
    p.before_case = no_plot;
    return p;
}
