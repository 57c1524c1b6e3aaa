// C05: wavelet scales cover exactly the requested range.
#include "pbt.h"
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
using namespace pbt;
using namespace k52::dsp;

static double positive(Src& s)
{
    if (s.flip()) return s.range(1, 20);
    double v = std::fabs(s.mag(-6, 6));
    return v > 0 ? v : 1;
}

static void linear(Src& s)
{
    double a = positive(s), b;
    switch (s.range(0, 3))
    {
    case 0: b = a + s.range(1, 100); break;
    case 1: b = std::nextafter(a, 1e300); break;
    case 2: b = a * (1 + s.unit()); break;
    default: b = positive(s);
    }
    if (b < a) std::swap(a, b);
    if (a == b) b = a * 2;
    size_t n = (size_t)(s.chance(0.2) ? s.range(2, 3000) : s.range(2, 20));
    s.note("min", a); s.note("max", b); s.note("count", n);
    bool degenerate = (b - a) / (double)(n - 1) < 4e-16 * b;
    if (!degenerate) s.nontrivial();
    s.label(degenerate ? "steps below rounding" : n == 2 ? "two scales" : "general");
    LinearScale sc(a, b, n);
    std::vector<double> v = sc.GetScales();
    check(v.size() == n, v.size(), " scales instead of ", n);
    double eps = 4e-15 * b;
    check(std::fabs(v[0] - a) <= eps, "first scale ", v[0], " instead of ", a);
    check(std::fabs(v[n - 1] - b) <= eps, "last scale ", v[n - 1], " instead of ", b);
    for (size_t i = 0; i < n; i++)
    {
        long double want = (long double)a + ((long double)b - a) * i / (long double)(n - 1);
        check(fabsl(v[i] - want) <= eps, "scale ", i, " is ", v[i], " instead of ", (double)want);
        if (i && !degenerate) check(v[i] > v[i - 1], "not increasing at ", i);
    }
    check(sc.GetScales() == v, "a second call gives other scales");
}

static void logarithmic(Src& s)
{
    int a = s.chance(0.3) ? s.range(-1020, 1000) : s.range(-20, 20);
    int b = a + (s.chance(0.2) ? s.range(1, 60) : s.range(1, 10));
    if (b > 1023) b = 1023;
    s.note("min exponent", a); s.note("max exponent", b);
    s.nontrivial();
    LogarithmicScale sc(a, b);
    std::vector<double> v = sc.GetScales();
    check(v.size() == (size_t)(b - a + 1), v.size(), " scales instead of ", b - a + 1);
    for (int i = 0; i < (int)v.size(); i++)
    {
        double want = std::ldexp(1.0, a + i);
        check(std::fabs(v[(size_t)i] - want) <= 1e-14 * want, "scale ", i, " is ", v[(size_t)i], " instead of ", want);
    }
    check(sc.GetScales() == v, "a second call gives other scales");
}

static void invalid(Src& s)
{
    s.nontrivial();
    switch (s.range(0, 5))
    {
    case 4:
        {
            double v[] = {NAN, -NAN, INFINITY, -INFINITY}, a = positive(s), b = a * 2;
            int k = s.range(0, 2);
            if (k != 0) a = v[s.range(0, 3)];
            if (k != 1) b = v[s.range(0, 3)];
            s.note("min", a); s.note("max", b);
            must_throw<std::invalid_argument>("bounds that are no numbers", [&] { LinearScale x(a, b, (size_t)s.range(2, 9)); });
            break;
        }
    case 0:
        {
            double a = s.flip() ? 0 : -positive(s), b = positive(s);
            s.note("min", a); s.note("max", b);
            must_throw<std::invalid_argument>("min <= 0", [&] { LinearScale x(a, b, 5); });
            break;
        }
    case 1:
        {
            double b = s.flip() ? 0 : -positive(s), a = s.flip() ? positive(s) : b - positive(s);
            s.note("min", a); s.note("max", b);
            must_throw<std::invalid_argument>("max <= 0", [&] { LinearScale x(a, b, 5); });
            break;
        }
    case 2:
        {
            double a = positive(s), b = s.flip() ? a : a * s.unit();
            if (b <= 0) b = a;
            s.note("min", a); s.note("max", b);
            must_throw<std::invalid_argument>("min >= max", [&] { LinearScale x(a, b, (size_t)s.range(2, 9)); });
            break;
        }
    case 3:
        {
            size_t n = (size_t)s.range(0, 1);
            double a = positive(s);
            s.note("count", n);
            must_throw<std::invalid_argument>("count < 2", [&] { LinearScale x(a, a * 2, n); });
            break;
        }
    default:
        {
            int a = s.range(-50, 50), b = s.flip() ? a : a - s.range(1, 100);
            s.note("min exponent", a); s.note("max exponent", b);
            must_throw<std::invalid_argument>("min exponent >= max exponent", [&] { LogarithmicScale x(a, b); });
        }
    }
}

Property pbt::property()
{
    Property p;
    p.id = "C05";
    p.facets = {{"linear", 10, linear}, {"logarithmic", 6, logarithmic}, {"invalid", 5, invalid}};
    p.quick_cases = 600000;
    p.thorough_cases = 20000000;
    p.batch = 2000;
    p.rule = "Generated bounds (integers, 1e-6..1e6, neighbouring doubles), counts 2..3000 and exponents -1020..1023, compared with the formula; and every kind of invalid argument. "
             "Non-trivial: the step is above rounding, or an invalid argument.";
    p.assumptions = {"tolerance 4e-15 relative to the largest scale"};
    return p;
}
