// C39: an optimisation ends within its limit of iterations, whatever the values of the objective.
#include "opt_config.h"
#include <unordered_map>
using namespace pbt;
using namespace opt;
using namespace conf;

namespace
{
const double kInf = std::numeric_limits<double>::infinity();
const double kNan = std::numeric_limits<double>::quiet_NaN();

struct PointHash { size_t operator()(const Point& p) const { uint64_t h = 7; for (double e : p) { uint64_t b; memcpy(&b, &e, 8); h = mix(h ^ b); } return (size_t)h; } };
struct PointEqual { bool operator()(const Point& a, const Point& b) const { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0; } };

// What the adversary answered so far; it always answers the same at the same point.
struct Memory
{
    std::unordered_map<Point, double, PointHash, PointEqual> values;
    double least = 0, most = 0;
    uint64_t random = 0;
    long asked = 0;
};

enum Shape { Library, ExpTail, Hinge, Unbounded, Logarithm, Reciprocal, Saw, Falling, Rising, Random, Alternating, Shapes };
static const char* const kShapes[] = {"library", "falling exponential", "hinge", "unbounded", "logarithm", "reciprocal", "sawtooth", "falling at every new point", "rising at every new point", "any value at every new point", "alternating"};

struct Spec
{
    Shape shape = Library;
    Function f;
    std::vector<double> w;       // direction
    double scale = 1, tooth = 1, height = 1;
    int special = 0;             // 1 not a number, 2 and 3 infinite, beyond border
    double border = 0;
    int period = 2;
    uint64_t seed = 0;
    bool up = false;
    std::string text() const
    {
        std::ostringstream o;
        o << kShapes[shape];
        if (shape == Library) o << " " << f.text();
        o << " direction "; put(o, w); o << " scale "; put(o, scale);
        if (shape == Saw) { o << " tooth "; put(o, tooth); o << " height "; put(o, height); }
        if (shape == Alternating) o << " period " << period;
        if (shape >= Falling) o << " seed " << seed;
        if (special) { o << " special " << special << " beyond "; put(o, border); }
        return o.str();
    }
    double operator()(const Point& x, Memory& m) const
    {
        double v = minimized(x, m);
        return up ? -v : v;
    }
    double minimized(const Point& x, Memory& m) const
    {
        double u = 0;
        for (size_t i = 0; i < x.size(); i++) u += w[i % w.size()] * x[i];
        if (special && u > border) return special == 1 ? kNan : special == 2 ? kInf : -kInf;
        switch (shape)
        {
        case Library: return f(x);
        case ExpTail: return scale * std::exp(-u);
        case Hinge: return scale * std::max(u, 0.0);
        case Unbounded: return -scale * u;
        case Logarithm: return -scale * std::log1p(std::fabs(u));
        case Reciprocal: return scale / (1 + std::fabs(u));
        case Saw: { double t = u / tooth; return -scale * t + (std::fabs(t - std::nearbyint(t)) > 1e-6 ? height : 0); }
        default: break;
        }
        auto at = m.values.find(x);
        if (at != m.values.end()) return at->second;
        double v = 0;
        uint64_t r = mix(m.random += 0x9e3779b97f4a7c15ULL);
        int how = shape == Falling ? 0 : shape == Rising ? 1 : shape == Alternating ? (m.asked % period == 0 ? 0 : 1) : (int)(r % 12);
        double step = scale * (1 + (double)(r >> 40) / 16777216.0);
        switch (how)
        {
        case 0: case 2: case 3: case 4: v = m.least - step; break;
        case 1: case 5: case 6: v = m.most + step; break;
        case 7: v = m.least; break;
        case 8: v = m.most; break;
        case 9: v = (m.least + m.most) / 2; break;
        case 10: v = m.least - step * 1e-9; break;
        default: v = seed % 3 ? m.least - step : seed % 9 == 0 ? kNan : kInf;
        }
        if (v < m.least) m.least = v;
        if (v > m.most && v < 1e300) m.most = v;
        m.asked++;
        m.values[x] = v;
        return v;
    }
};

struct Run { long count = 0, most = 0; std::vector<Eval> evals; bool store = false; };

class Objective39 : public ContinuousObjectiveFunction
{
public:
    Objective39(const Spec& f, std::shared_ptr<Memory> m, std::shared_ptr<Run> r) : f_(f), m_(m), r_(r) {}
    using ContinuousObjectiveFunction::operator();
    virtual double operator()(const std::vector<double>& x) const
    {
        if (r_->count++ >= r_->most) throw TooLong();
        double v = f_(x, *m_);
        if (r_->store) r_->evals.push_back({x, v});
        return v;
    }
    virtual Objective39* Clone() const { return new Objective39(f_, m_, r_); }
private:
    const Spec& f_;
    std::shared_ptr<Memory> m_;
    std::shared_ptr<Run> r_;
};

Spec gen_spec(Src& s, bool with_memory)
{
    Spec f;
    f.shape = (Shape)s.range(Library, with_memory ? Shapes - 1 : Saw);
    if (f.shape == Library)
    {
        std::vector<Function::Kind> all;
        for (int k = Function::Constant; k <= Function::Plateau; k++) all.push_back((Function::Kind)k);
        f.f = gen_function(s, all);
    }
    for (int n = s.range(1, 4); n > 0; n--) f.w.push_back(s.chance(0.2) ? 0 : s.chance(0.5) ? (s.flip() ? 1 : -1) : simple_real(s, 3));
    if (s.chance(0.4)) f.scale = std::pow(10, s.range(-6, 6));
    f.tooth = s.pick(std::vector<double>{1, 0.5, 0.1, 0.05, 2});
    f.height = s.pick(std::vector<double>{1, 10, 1e3, 1e9});
    if (s.chance(0.2)) { f.special = s.range(1, 3); f.border = simple_real(s, s.flip() ? 3 : 1000); }
    f.period = s.range(2, 7);
    f.seed = s.draw(0xffff);
    f.up = s.flip();
    return f;
}

// What the limit of iterations allows: each iteration has a number of evaluations that only depends on the
// number of arguments, the precision, and the range of double.
long allowed(const Config& c, size_t d)
{
    double n = (double)std::max<size_t>(c.n, 1), D = (double)d;
    switch (c.k)
    {
    case HJ:
        {
            double shrinks = std::max(0.0, std::ceil(std::log(c.d[1] * std::sqrt(D) / c.d[2]) / std::log(c.d[3]))) + 3;
            return (long)(n * (6 * D + 2) + shrinks * 3 * D) + 10;
        }
    case NM: return (long)((1000 * D + 2) * (D + 4)) + 10;
    case CG:
        {
            double m = c.usual ? 1000 : n;
            return (long)(2 * D + m * (3 * m + 2 * D)) + 10;
        }
    case SD: return (long)(n * (4 * D + 14000) + 2 * D) + 10;
    case RB: return (long)(n * (D + 1));
    case SA: return (long)(2 * n);
    default: return (long)n;
    }
}

Config configure(Src& s)
{
    Config c = gen_config(s);
    if (c.k == CG) c.usual = false;
    if (c.k == SD) c.n = std::min<size_t>(c.n, 5);
    return c;
}

std::string perform(const Config& c, const Spec& f, const Point& start, std::shared_ptr<Run> r, Point& result)
{
    no_plot();
    Objective39 o(f, std::make_shared<Memory>(), r);
    ContinuousParametersArray p(start);
    try { c.make()->Optimize(o, &p, f.up); }
    catch (TooLong&) { return "too long"; }
    catch (std::exception& e) { return std::string("threw ") + e.what(); }
    result = p.GetValues();
    return "returned";
}
}

static void ends(Src& s)
{
    rc::begin(s);
    g_processors = 1;
    Config c = configure(s);
    Spec f = gen_spec(s, true);
    size_t d = (size_t)s.range(1, c.k == NM ? 3 : 5);
    Point start(d);
    for (auto& e : start) e = simple_real(s, s.chance(0.1) ? 1e6 : 10);
    long most = allowed(c, d);
    Config inner;
    if (c.k == RS && s.flip())
    {
        inner = gen_config(s, HJ, RB);
        if (inner.k == CG) inner.usual = false;
        if (inner.k == SD) inner.n = std::min<size_t>(inner.n, 2);
        if (inner.k == NM) d = std::min<size_t>(d, 2), start.resize(d);
        c.n = std::min<size_t>(c.n, 4);
        c.inner = inner.make();
        most = (long)c.n * (allowed(inner, d) + 1);
        s.note("inner optimiser", inner.text());
    }
    s.note("optimiser", c.text()); s.note("function", f.text()); s.note("start", start);
    s.note("direction", std::string(f.up ? "maximize" : "minimize"));
    std::shared_ptr<Run> r(new Run());
    r->most = most;
    Point result;
    std::string how = perform(c, f, start, r, result);
    check(how != "too long", "does not end after the ", most, " evaluations that are allowed");
    if (how == "returned") check(result.size() == d, "returns ", result.size(), " arguments");
    s.label(kNames[c.k]); s.label(kShapes[f.shape]);
    if (f.special) s.label("special values");
    if (c.inner) s.label("inner optimiser");
    if (how != "returned") s.label("threw");
    if ((double)r->count > 0.2 * (double)most) s.label("more than a fifth of what is allowed");
    if (r->count > (long)d + 1) s.nontrivial();
}

// a greater limit only continues what a smaller one began
static void longer(Src& s)
{
    rc::begin(s);
    g_processors = 1;
    Config c = configure(s);
    if (c.k == NM || c.k == CG || c.k == SA) c = gen_config(s, RB, RB);
    if (c.k == SD) c.n = (size_t)s.range(1, 4);
    Config more = c;
    more.n = c.n + (size_t)s.range(1, c.k == SD ? 4 : 60);
    Spec f = gen_spec(s, true);
    size_t d = (size_t)s.range(1, 5);
    Point start(d);
    for (auto& e : start) e = simple_real(s, s.chance(0.1) ? 1e6 : 10);
    s.note("optimiser", c.text()); s.note("greater limit", more.n); s.note("function", f.text()); s.note("start", start);
    s.note("direction", std::string(f.up ? "maximize" : "minimize"));
    rc::Point here = rc::Point::here();
    std::shared_ptr<Run> a(new Run()), b(new Run());
    a->store = b->store = true;
    a->most = allowed(c, d); b->most = allowed(more, d);
    Point ra, rb;
    std::string ha = perform(c, f, start, a, ra);
    here.restore();
    std::string hb = perform(more, f, start, b, rb);
    check(ha != "too long" && hb != "too long", "does not end");
    check(a->evals.size() <= b->evals.size(), a->evals.size(), " evaluations with the limit of ", c.n, " but only ", b->evals.size(), " with that of ", more.n);
    for (size_t i = 0; i < a->evals.size(); i++)
        check(same(a->evals[i].p, b->evals[i].p), "evaluation ", i, " is of ", a->evals[i].p, " with the limit of ", c.n, " but of ", b->evals[i].p, " with that of ", more.n);
    if (a->evals.size() == b->evals.size())
    {
        check(ha == hb, ha, " with the limit of ", c.n, " but ", hb, " with that of ", more.n);
        check(same(ra, rb), "returns ", ra, " with the limit of ", c.n, " but ", rb, " with that of ", more.n, " after the same evaluations");
    }
    s.label(kNames[c.k]); s.label(kShapes[f.shape]);
    if (a->evals.size() < b->evals.size()) { s.label("ended by the limit"); s.nontrivial(); }
}

Property pbt::property()
{
    Property p;
    p.id = "C39";
    p.facets = {{"ends", 3, ends}, {"longer", 1, longer}};
    p.quick_cases = 30000;
    p.thorough_cases = 600000;
    p.rule = "An optimisation of one of the seven methods (random search also with an inner one) of an objective that is bounded or not, flat or falling along directions, infinite or not a number in regions, or made up while it runs (a value for each new point: lower than all, higher than all, any, alternating) is counted against the number of evaluations that its limit of iterations allows; or made with two limits. Non-trivial: more evaluations than arguments and one; of two limits, that the lower one ended the search.";
    p.assumptions = {"The objective gives the same value at the same point.", "Limits of at least one iteration, positive steps and precisions, a step divider above one."};
    p.batch = 50;
    return p;
}
