// C27: an optimiser's outcome depends on its configuration and the call alone.
#include "opt_config.h"
using namespace pbt;
using namespace opt;

namespace
{
typedef Function F;
using namespace conf;

struct Call
{
    F f;
    Point start;
    bool maximize = false;
    long fail_at = -1, clone_at = -1;
    uint64_t random = 1;
    std::string text() const
    {
        std::ostringstream o;
        o << (maximize ? "maximize " : "minimize ") << f.text() << " from ";
        put(o, start);
        if (fail_at >= 0) o << " failing at evaluation " << fail_at;
        if (clone_at >= 0) o << " cloned in evaluation " << clone_at;
        return o.str();
    }
};

Call gen_call(Src& s)
{
    Call c;
    c.f = opt::gen_function(s, {F::Quadratic, F::Absolute, F::Rosenbrock, F::Waves, F::Peaks, F::Steps, F::Plateau, F::Rough, F::Constant, F::Hash, F::Linear});
    opt::gen_undefined(s, c.f);
    int n = s.chance(0.03) ? s.range(7, 12) : s.weighted({1, 3, 3, 2, 1, 1}) + 1;
    for (int i = 0; i < n; i++) c.start.push_back(simple_real(s, s.chance(0.1) ? 30 : 10));
    c.maximize = s.flip();
    if (s.chance(0.2)) c.fail_at = s.chance(0.5) ? s.range(0, 12) : s.range(0, 200);
    c.random = s.draw(0xffff);
    return c;
}

// clones the optimiser it is called by in one of its evaluations
class Cloning : public ContinuousObjectiveFunction
{
public:
    Cloning(const F& f, LogPtr log, long at, const ContinuousOptimizer* o, std::shared_ptr<ContinuousOptimizer::shared_ptr> out)
        : inner_(f, log), f_(f), log_(log), at_(at), o_(o), out_(out) {}
    using ContinuousObjectiveFunction::operator();
    virtual double operator()(const std::vector<double>& x) const
    {
        if (log_->count == at_) out_->reset(o_->Clone());
        return inner_(x);
    }
    virtual Cloning* Clone() const { return new Cloning(f_, log_, at_, o_, out_); }
private:
    Objective inner_;
    F f_;
    LogPtr log_;
    long at_;
    const ContinuousOptimizer* o_;
    std::shared_ptr<ContinuousOptimizer::shared_ptr> out_;
};


struct Outcome
{
    std::string how;
    Point result;
    std::vector<Eval> evals;
};

Outcome perform(ContinuousOptimizer& o, const Call& c, ContinuousOptimizer::shared_ptr* clone)
{
    Outcome r;
    LogPtr log(new Log());
    log->fail_at = c.fail_at;
    log->most = 3000;
    rc::state = c.random * 0x9e3779b97f4a7c15ULL + 1;
    rc::mode = 0;
    ContinuousParametersArray p(c.start);
    std::shared_ptr<ContinuousOptimizer::shared_ptr> out(new ContinuousOptimizer::shared_ptr());
    try
    {
        if (clone && c.clone_at >= 0) o.Optimize(Cloning(c.f, log, c.clone_at, &o, out), &p, c.maximize);
        else o.Optimize(Objective(c.f, log), &p, c.maximize);
        r.how = "returned";
        r.result = p.GetValues();
    }
    catch (ObjectiveError&) { r.how = "failed as the objective did"; }
    catch (TooLong&) { r.how = "too long"; }
    catch (std::exception& e) { r.how = std::string("threw ") + e.what(); }
    if (clone) *clone = *out;
    r.evals.swap(log->evals);
    return r;
}

void compare(const Outcome& a, const Outcome& b, const std::string& who)
{
    size_t n = std::min(a.evals.size(), b.evals.size());
    for (size_t i = 0; i < n; i++)
        check(same(a.evals[i].p, b.evals[i].p), who, " evaluates ", a.evals[i].p, " at ", i, ", a fresh one ", b.evals[i].p);
    check(a.how == b.how, who, " ", a.how, ", a fresh one ", b.how);
    check(a.evals.size() == b.evals.size(), who, " makes ", a.evals.size(), " evaluations, a fresh one ", b.evals.size());
    check(same(a.result, b.result), who, " returns ", a.result, ", a fresh one ", b.result);
}
}

// one object and its clones through a history; a fresh object for each call is the oracle
static void history(Src& s)
{
    rc::begin(s, true);
    rc::Image pristine;
    pristine.save();
    Config c = gen_config(s);
    s.note("optimiser", c.text());
    std::vector<ContinuousOptimizer::shared_ptr> objects(1, c.make());
    std::vector<Call> calls;
    int steps = s.size(2, 10);
    int good = 0;
    std::string name = objects[0]->get_name();
    for (int i = 0; i < steps; i++)
    {
        size_t who = s.index(objects.size());
        if (c.clones() && i > 0 && s.chance(0.15))
        {
            s.note("clone of", (int)who);
            ContinuousOptimizer::shared_ptr q(objects[who]->Clone());
            check(q.get() && q.get() != objects[who].get(), "the clone is not another object");
            check(q->get_name() == name, "the clone is called ", q->get_name(), ", not ", name);
            if (s.flip()) objects[who] = q; else objects.push_back(q);
            s.label("cloned");
            continue;
        }
        // a call of before, or a new one
        Call call = !calls.empty() && s.chance(0.3) ? s.pick(calls) : gen_call(s);
        call.clone_at = c.clones() && s.chance(0.15) ? s.range(0, 60) : -1;
        calls.push_back(call);
        s.note("object", (int)who); s.note("call", call.text());
        ContinuousOptimizer::shared_ptr q;
        pristine.restore();
        Outcome mine = perform(*objects[who], call, &q);
        pristine.restore();
        Outcome fresh = perform(*c.make(), call, nullptr);
        compare(mine, fresh, i == 0 ? "the object" : objects.size() > 1 ? "one of the objects" : "the used object");
        if (q) { check(q->get_name() == name, "the clone is called ", q->get_name(), ", not ", name); objects.push_back(q); s.label("cloned while running"); }
        if (i > 0 && mine.evals.size() > 3) good++;
        if (mine.how != "returned") s.label(mine.how.substr(0, 6) == "threw " ? "threw" : mine.how);
    }
    s.label(kNames[c.k]);
    if (good > 0) s.nontrivial();
}

// copies of one configuration, used in turn, do not know of each other
static void apart(Src& s)
{
    rc::begin(s, true);
    rc::Image pristine;
    pristine.save();
    Config c = gen_config(s), other = gen_config(s);
    s.note("optimiser", c.text()); s.note("another", other.text());
    Call call = gen_call(s), call2 = gen_call(s);
    s.note("call", call.text()); s.note("other call", call2.text());
    ContinuousOptimizer::shared_ptr a = c.make(), b = other.make(), a2 = c.make();
    if (c.clones() && s.flip()) a2.reset(a->Clone());
    pristine.restore();
    Outcome first = perform(*a, call, nullptr);
    perform(*b, call2, nullptr);
    pristine.restore();
    compare(perform(*a2, call, nullptr), first, "an equal object, after another was used,");
    s.label(kNames[c.k]);
    if (first.evals.size() > 3) s.nontrivial();
}

// Nelder-Mead: everything within its bounds
static void bounds(Src& s)
{
    double lo = s.chance(0.5) ? s.range(-10, 0) : s.mag(-3, 3);
    double width = s.chance(0.5) ? s.range(1, 20) : std::pow(10, s.range(-3, 3)) * (0.1 + s.unit());
    double hi = lo + width;
    double l = s.chance(0.4) ? 10 : width * std::pow(10, s.range(-3, 2)) * (0.2 + s.unit());
    double prec = std::pow(10, s.range(-9, -1));
    int n = s.chance(0.03) ? s.range(7, 12) : s.range(1, 6);
    F f = opt::gen_function(s, {F::Linear, F::Quadratic, F::Absolute, F::Hash, F::Rosenbrock, F::Waves, F::Rough, F::Steps, F::Constant});
    gen_undefined(s, f);
    if (f.kind == F::Quadratic || f.kind == F::Absolute) for (auto& e : f.centre) e = lo + width * (2 * s.unit() - 0.5);
    Point start(n);
    bool outside = s.chance(0.2);
    for (auto& e : start) e = outside ? lo + width * (3 * s.unit() - 1) : s.chance(0.3) ? lo : s.chance(0.3) ? hi : lo + width * s.unit();
    bool maximize = s.flip();
    s.note("lower", lo); s.note("upper", hi); s.note("edge", l); s.note("precision", prec); s.note("function", f.text()); s.note("start", start); s.note("maximize", maximize);
    BoundedNelderMead nm(l, prec, lo, hi);
    check(nm.get_lower_bound() == lo && nm.get_upper_bound() == hi, "bounds are reported as ", nm.get_lower_bound(), " and ", nm.get_upper_bound());
    ContinuousOptimizer::shared_ptr o(s.chance(0.3) ? nm.Clone() : new BoundedNelderMead(l, prec, lo, hi));
    LogPtr log(new Log());
    log->most = 20000;
    ContinuousParametersArray p(start);
    Point result;
    bool returned = true;
    try { o->Optimize(Objective(f, log), &p, maximize); result = p.GetValues(); }
    catch (TooLong&) { returned = false; }
    double slack = 1e-12 * (std::fabs(lo) + std::fabs(hi));
    bool at = false;
    auto inside = [&](const Point& q)
    {
        for (double e : q) { if (!(e >= lo - slack && e <= hi + slack)) return false; if (e <= lo || e >= hi) at = true; }
        return true;
    };
    for (auto& e : log->evals) check(inside(e.p), "evaluates ", e.p, " outside of ", lo, "..", hi);
    if (returned) check(inside(result), "returns ", result, " outside of ", lo, "..", hi);
    s.label(outside ? "start may be outside" : "start inside");
    if (at) { s.label("reaches a bound"); s.nontrivial(); }
}

Property pbt::property()
{
    Property p = {"C27",
        {{"history", 5, history}, {"apart", 1, apart}, {"bounds", 3, bounds}},
        15000, 500000,
        "Histories of 2-10 optimisations and clonings on one object and its clones (taken between and within runs), of generated functions, dimensions, starts and directions, some "
        "ended by an exception of the objective; points evaluated and results are compared exactly with those of a fresh object of the same configuration "
        "(random optimisers: from the same state of the generator). Nelder-Mead with generated bounds, edges and starts. Non-trivial: an optimisation of more than 3 "
        "evaluations by a used object; a bound was reached.",
        {"Runs end by an exception of the objective after 3000 evaluations.", "Bounds up to rounding (1e-12 relative)."}};
    p.batch = 50;
    p.cpu_limit = 60;
    p.before_case = no_plot;
    return p;
}
