// C10: the Akima spline is the Akima interpolant of its points.
#include "akima_ref.h"
#include <k52/dsp/akima_spline.h>
using namespace pbt;
using namespace k52::dsp;

static void gen_points(Src& s, std::vector<double>& x, std::vector<double>& y, std::string& kind)
{
    int n = s.chance(0.03) ? s.range(41, 400) : s.size(5, 40);
    x.resize((size_t)n);
    y.resize((size_t)n);
    double v = s.range(-20, 20);
    int xk = s.range(0, 2), yk = s.range(0, 5);
    for (auto& a : x)
    {
        a = v;
        v += xk == 0 ? 1 : xk == 1 ? s.range(1, 16) / 8.0 : std::pow(10.0, s.real(-2, 2));
    }
    static const char* names[] = {"steps", "integers", "reals", "line", "wave", "scaled"};
    kind = names[yk];
    double a = s.range(-5, 5), b = s.range(-5, 5), ph = s.real(0, 6);
    double sc = yk == 5 ? std::pow(10.0, s.range(-12, 12)) : 1;
    for (size_t i = 0; i < x.size(); i++)
        switch (yk)
        {
        case 0: y[i] = i && s.chance(0.7) ? y[i - 1] : s.range(-3, 3); break;   // flat pieces
        case 1: y[i] = s.range(-9, 9); break;
        case 2: y[i] = s.real(-10, 10); break;
        case 3: y[i] = a * x[i] + b; break;
        case 4: y[i] = std::sin(x[i] + ph) * (a + 6); break;
        default: y[i] = s.real(-1, 1) * sc;
        }
}

static double gen_arg(Src& s, const std::vector<double>& x)
{
    switch (s.range(0, 3))
    {
    case 0: return x[s.index(x.size())];
    case 1:
        {
            double v = x[s.index(x.size())];
            v = std::nextafter(v, s.flip() ? 1e300 : -1e300);
            return std::min(std::max(v, x.front()), x.back());
        }
    case 2:
        {
            size_t i = s.index(x.size() - 1);
            double v = x[i] + (x[i + 1] - x[i]) * s.unit();
            return std::min(v, x.back());
        }
    default: return s.real(x.front(), x.back());
    }
}

static void check_spline(Src& s, AkimaSpline& sp, const std::vector<double>& x, const std::vector<double>& y, int probes, bool& sure)
{
    AkimaRef ref(x, y);
    for (size_t i = 0; i < x.size(); i++)
    {
        double v = sp.Value(x[i]);
        long double tol = 1e-13L * fabsl(y[i]);
        // the last point is evaluated at the end of the last cubic
        if (i + 1 == x.size()) tol = ref.tol(i - 1);
        check(fabsl((long double)v - y[i]) <= tol, "point ", i, " of ", x.size(), ": value ", v, " at ", x[i], " instead of ", y[i]);
    }
    for (int k = 0; k < probes; k++)
    {
        double v = gen_arg(s, x);
        size_t i = ref.interval(v);
        double got = sp.Value(v);
        long double want = ref.value(i, v), tol = ref.tol(i) + ref.slack(i);
        if (ref.slack(i) == 0) sure = true;
        check(fabsl(got - want) <= tol, "value at ", v, " (interval ", i, ") is ", got, ", expected ", (double)want, ", tolerance ", (double)tol);
    }
    // continuity of value and slope at inner points, from the function itself
    for (int k = 0; k < 3 && x.size() > 2; k++)
    {
        size_t i = 1 + s.index(x.size() - 2);
        long double hl = x[i] - x[i - 1], hr = x[i + 1] - x[i], h = std::min(hl, hr) * 1e-4L;
        long double l = (ref.y[i] - sp.Value((double)(x[i] - h))) / h, r = (sp.Value((double)(x[i] + h)) - ref.y[i]) / h;
        long double curv = (fabsl(ref.s[i - 1]) + fabsl(ref.s[i]) + fabsl(ref.s[i + 1]) + fabsl(ref.m[i + 1]) + fabsl(ref.m[i + 2])) * (1 / hl + 1 / hr) * 12 * h;
        long double noise = (1e-15L * 20 * (fabsl(ref.y[i]) + fabsl(ref.y[i - 1]) + fabsl(ref.y[i + 1]))  + 4e-16L * fabsl(ref.x[i]) * (fabsl(ref.s[i]) + fabsl(ref.m[i + 1]) + fabsl(ref.m[i + 2])) * 8) / h;
        long double amb = ref.unsure[i - 1] || ref.unsure[i] || ref.unsure[i + 1] ? 1e30L : 0;
        check(fabsl(l - r) <= curv + noise + amb, "slopes left and right of point ", i, " (", x[i], ") differ: ", (double)l, " and ", (double)r);
    }
}

static void interpolates(Src& s)
{
    std::vector<double> x, y;
    std::string kind;
    gen_points(s, x, y, kind);
    s.note("kind", kind); s.note("x", x); s.note("y", y);
    s.label("y:" + kind);
    s.label(x.size() == 5 ? "five points" : "more points");
    AkimaSpline::shared_ptr sp = AkimaSpline::Create();
    sp->Initialize(x, y);
    bool sure = false;
    check_spline(s, *sp, x, y, s.range(1, 20), sure);
    if (sure && kind != "line") s.nontrivial();
    if (kind == "line")
    {
        s.nontrivial();
        double a = (y.back() - y.front()) / (x.back() - x.front());
        for (int k = 0; k < 10; k++)
        {
            double v = gen_arg(s, x), want = y.front() + a * (v - x.front());
            double sc = 1 + std::fabs(a) * (std::fabs(x.front()) + std::fabs(x.back())) + std::fabs(y.front()) + std::fabs(y.back());
            check(std::fabs(sp->Value(v) - want) <= 1e-10 * sc, "a straight line is not reproduced at ", v, ": ", sp->Value(v), " instead of ", want);
        }
    }
}

static void outside(Src& s)
{
    std::vector<double> x, y;
    std::string kind;
    gen_points(s, x, y, kind);
    s.note("x", x); s.note("y", y);
    s.nontrivial();
    AkimaSpline::shared_ptr sp = AkimaSpline::Create();
    must_throw<std::out_of_range>("evaluation before training", [&] { sp->Value(s.real(-10, 10)); });
    sp->Initialize(x, y);
    double inf = std::numeric_limits<double>::infinity();
    for (int k = 0; k < 4; k++)
    {
        double v;
        switch (s.range(0, 4))
        {
        case 0: v = std::nextafter(x.front(), -inf); break;
        case 1: v = std::nextafter(x.back(), inf); break;
        case 2: v = s.flip() ? inf : -inf; break;
        case 3: v = s.flip() ? std::numeric_limits<double>::quiet_NaN() : -std::numeric_limits<double>::quiet_NaN(); break;
        default: v = s.flip() ? x.front() - s.real(1e-9, 1e6) : x.back() + s.real(1e-9, 1e6);
        }
        if (v >= x.front() && v <= x.back()) continue;
        s.note("argument", v);
        must_throw<std::out_of_range>("argument outside", [&] { sp->Value(v); });
    }
    bool sure = false;
    check_spline(s, *sp, x, y, 3, sure);
}

// points whose abscissas do not increase everywhere
static void unordered(Src& s, std::vector<double>& x, std::vector<double>& y)
{
    std::string kind;
    gen_points(s, x, y, kind);
    switch (s.range(0, 3))
    {
    case 0: std::reverse(x.begin(), x.end()); break;
    case 1: { size_t i = 1 + s.index(x.size() - 1); x[i] = x[i - 1]; break; }
    case 2: x[s.index(x.size())] = NAN; break;
    default: { size_t i = s.index(x.size() - 1); std::swap(x[i], x[i + 1]); }
    }
}

static void history(Src& s)
{
    AkimaSpline::shared_ptr sp = AkimaSpline::Create(), other = AkimaSpline::Create();
    std::vector<double> x, y, x0, y0;
    int steps = s.range(2, 6);
    for (int i = 0; i < steps; i++)
    {
        if (i && s.chance(0.3))
        {
            // refused training changes nothing
            size_t a = (size_t)s.range(0, 9), b = (size_t)s.range(0, 9);
            if (a == b && a >= 5) b = s.flip() ? a + 1 : a - 1;
            s.note("refused training with", std::vector<size_t>{a, b});
            std::vector<double> bx(a), by(b);
            for (size_t k = 0; k < a; k++) bx[k] = (double)k;
            for (size_t k = 0; k < b; k++) by[k] = s.range(-3, 3);
            if (s.flip()) unordered(s, bx, by);
            must_throw<std::invalid_argument>("too few, unequal numbers of or unordered points", [&] { sp->Initialize(bx, by); });
        }
        else
        {
            std::string kind;
            gen_points(s, x, y, kind);
            s.note("x", x); s.note("y", y);
            sp->Initialize(x, y);
            if (i == 0 || s.chance(0.2)) { other->Initialize(x, y); x0 = x; y0 = y; }
        }
        bool sure = false;
        check_spline(s, *sp, x, y, 4, sure);
        if (sure) s.nontrivial();
        // another one keeps its own points
        check_spline(s, *other, x0, y0, 2, sure);
    }
}

static void rejects(Src& s)
{
    s.nontrivial();
    size_t a = (size_t)s.range(0, 9), b = (size_t)s.range(0, 9);
    if (a == b && a >= 5) b = s.flip() ? a + 1 : a - 1;
    s.note("x", a); s.note("y", b);
    std::vector<double> bx(a), by(b);
    for (size_t k = 0; k < a; k++) bx[k] = (double)k;
    for (size_t k = 0; k < b; k++) by[k] = s.range(-3, 3);
    AkimaSpline::shared_ptr sp = AkimaSpline::Create();
    must_throw<std::invalid_argument>("too few or unequal numbers of points", [&] { sp->Initialize(bx, by); });
    must_throw<std::out_of_range>("evaluation before a successful training", [&] { sp->Value(1); });
    unordered(s, bx, by);
    s.note("x", bx);
    must_throw<std::invalid_argument>("abscissas that do not increase", [&] { sp->Initialize(bx, by); });
    must_throw<std::out_of_range>("evaluation before a successful training", [&] { sp->Value(1); });
}

Property pbt::property()
{
    Property p;
    p.id = "C10";
    p.facets = {{"interpolates", 12, interpolates}, {"outside", 4, outside}, {"history", 4, history}, {"rejects", 1, rejects}};
    p.quick_cases = 250000;
    p.thorough_cases = 8000000;
    p.batch = 1000;
    p.rule = "5..40 points with uniform, dyadic or widely varying spacing and ordinates that are flat in pieces, integer, real, linear, waves or scaled by 1e-12..1e12; the spline is evaluated at the points, "
             "their neighbouring doubles and inside, and compared with Akima's definition in Hermite form in long double; slopes are compared across points; retraining and refused training. "
             "Non-trivial: at least one comparison where the slope weights do not vanish up to rounding, a straight line, or a refusal.";
    p.assumptions = {"where the slope weights vanish up to rounding, any slope between the neighbouring chord slopes is accepted"};
    return p;
}
