// C15: number helpers obey their definitions for every input.
#include "pbt.h"
#include <k52/common/floating_point.h>
#include <k52/common/helpers.h>
#include <k52/common/random.h>
#include <iostream>
#include <cstdlib>
using namespace pbt;
using k52::common::FloatingPoint;
using k52::common::Helpers;
using k52::common::Random;
typedef std::complex<double> cd;

static double gen_value(Src& s)
{
    switch (s.range(0, 5))
    {
    case 0: return s.real(-10, 10);
    case 1: return s.mag(-320, 308);
    case 2: return s.flip() ? 0.0 : -0.0;
    case 3: return std::numeric_limits<double>::max() * (s.flip() ? 1 : -1);
    case 4: return std::numeric_limits<double>::denorm_min() * s.range(-3, 3);
    default: return 1e-10 * s.real(-3, 3);
    }
}

// a partner of x, often close to the tolerance
static double gen_near(Src& s, double x)
{
    switch (s.range(0, 7))
    {
    case 0: return x;
    case 1: return x + 1e-10 * s.real(-2, 2);
    case 2: return x + 1e-10 * (s.flip() ? 0.999 : 1.001) * (s.flip() ? 1 : -1);
    case 3: return std::nextafter(x, s.flip() ? 1e308 : -1e308);
    case 4: return -x;
    case 5: return x + s.mag(-12, -8);
    case 6: return x * (1 + 1e-10 * s.real(-3, 3));
    default: return gen_value(s);
    }
}

// 1 equal, 0 not equal, -1 within rounding of the tolerance
static int equal(double x, double y)
{
    long double d = fabsl((long double)x - (long double)y);
    if (fabsl(d - 1e-10L) <= 1e-24L + d * 1e-15L) return -1;
    return d < 1e-10L;
}

static void numbers(Src& s)
{
    double x = gen_value(s), y = gen_near(s, x);
    if (!std::isfinite(y)) y = x;
    s.note("x", x); s.note("y", y);
    int e = equal(x, y);
    s.label(e == 1 ? x == y ? "identical" : "equal" : e == 0 ? "different" : "at the tolerance");
    if (x != y) s.nontrivial();
    if (e >= 0)
    {
        check(FloatingPoint::AreEqual(x, y) == (e == 1), "AreEqual(", x, ", ", y, ") is ", FloatingPoint::AreEqual(x, y));
        check(FloatingPoint::AreEqual(y, x) == (e == 1), "AreEqual(", y, ", ", x, ") is ", FloatingPoint::AreEqual(y, x));
    }
    for (double v : {x, y, x - y})
    {
        if (!std::isfinite(v)) continue;
        int z = equal(v, 0);
        if (z >= 0) check(FloatingPoint::IsZero(v) == (z == 1), "IsZero(", v, ") is ", FloatingPoint::IsZero(v));
    }
}

// what is not a number equals nothing, and nothing finite is equal to an infinity
static void unusual(Src& s)
{
    double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    int k = s.range(0, 3);
    double y = k == 0 ? nan : k == 1 ? -nan : k == 2 ? inf : -inf, x = gen_value(s);
    if (k < 2 && s.chance(0.3)) x = s.flip() ? y : s.flip() ? inf : -inf;
    if (k >= 2 && s.chance(0.2)) x = -y;
    s.note("x", x); s.note("y", y);
    s.nontrivial();
    s.label(k < 2 ? "not a number" : "infinity");
    check(!FloatingPoint::AreEqual(x, y) && !FloatingPoint::AreEqual(y, x), x, " is said to be equal to ", y);
    check(!FloatingPoint::IsZero(y), y, " is said to be zero");
    std::vector<double> a, b;
    int n = s.size(1, 8), at = s.range(0, n - 1);
    for (int i = 0; i < n; i++) { double v = i == at ? x : gen_value(s); a.push_back(v); b.push_back(i == at ? y : v); }
    s.note("a", a); s.note("b", b);
    check(!FloatingPoint::AreEqual(a, b) && !FloatingPoint::AreEqual(b, a), "the vectors are said to be equal");
}

static void vectors(Src& s)
{
    int n = s.chance(0.01) ? s.range(21, 2000) : s.size(0, 20);
    std::vector<double> a, b;
    bool eq = true, sure = true;
    int differ = s.chance(0.5) && n ? s.range(0, n - 1) : -1;
    for (int i = 0; i < n; i++)
    {
        double x = gen_value(s), y = i == differ ? gen_near(s, x) : s.flip() ? x : x + 1e-11 * s.real(-3, 3);
        if (!std::isfinite(y)) y = x;
        int e = equal(x, y);
        if (e < 0) sure = false;
        eq = eq && e == 1;
        a.push_back(x); b.push_back(y);
    }
    int resize = s.chance(0.15) ? s.range(1, 3) : 0;
    if (resize == 1) { b.push_back(s.flip() ? 0.0 : 1.0); eq = false; sure = true; }
    if (resize >= 2 && n) { b.resize((size_t)s.range(0, n - 1)); eq = false; sure = true; }
    s.note("a", a); s.note("b", b);
    s.label(a.size() != b.size() ? "different lengths" : eq ? "equal" : "different");
    if (n) s.nontrivial();
    if (sure)
    {
        check(FloatingPoint::AreEqual(a, b) == eq, "the vectors are said to be ", eq ? "different" : "equal");
        check(FloatingPoint::AreEqual(b, a) == eq, "the vectors are said to be ", eq ? "different" : "equal", " the other way round");
    }
}

static bool same(double a, double b) { return a == b && std::signbit(a) == std::signbit(b); }

static void conjugate(Src& s)
{
    std::vector<cd> x;
    int n = s.chance(0.01) ? s.range(41, 3000) : s.size(0, 40);
    for (int i = 0; i < n; i++) { double re = gen_value(s); x.push_back(cd(re, gen_value(s))); }
    s.note("x", x);
    if (n) s.nontrivial();
    std::vector<cd> c = Helpers::Conjugate(x), x0 = x;
    check(x == x0, "the argument was changed");
    check(c.size() == x.size(), c.size(), " values of ", x.size());
    for (size_t i = 0; i < x.size(); i++)
        check(same(c[i].real(), x[i].real()) && c[i].imag() == -x[i].imag(), "value ", i, " is ", c[i], " for ", x[i]);
    check(Helpers::Conjugate(c) == x, "conjugating twice does not give the sequence back");
}

static void print(Src& s)
{
    std::vector<double> x;
    int n = s.chance(0.01) ? s.range(31, 1500) : s.size(0, 30);
    for (int i = 0; i < n; i++) x.push_back(gen_value(s));
    int prec = s.range(0, 20);
    s.note("x", x); s.note("precision", prec);
    if (n > 1) s.nontrivial();
    std::ostringstream o;
    std::streambuf* old = std::cout.rdbuf(o.rdbuf());
    std::streamsize before = std::cout.precision(prec);
    Helpers::PrintVector(x);
    std::streamsize after = std::cout.precision(before);
    std::cout.rdbuf(old);
    std::string t = o.str();
    s.note("printed", t);
    check(after == prec, "the precision of the stream was ", prec, " and is ", (int)after);
    std::vector<double> got;
    const char* p = t.c_str();
    while (*p)
    {
        char* e;
        bool start = *p == '-' || *p == '+' || (*p >= '0' && *p <= '9') || *p == '.';
        double v = start ? strtod(p, &e) : 0;
        if (start && e != p) { got.push_back(v); p = e; }
        else p++;
    }
    check(got.size() == x.size(), got.size(), " numbers in ", t, " for ", x.size(), " values");
    for (size_t i = 0; i < x.size(); i++)
        check(std::fabs(got[i] - x[i]) <= 1e-14 * std::fabs(x[i]) || (std::isinf(got[i]) && std::fabs(x[i]) > 1.79e308) || std::fabs(got[i] - x[i]) < 1e-320,
              "number ", i, " is ", got[i], " for ", x[i], " in ", t);
}

static void probability(Src& s)
{
    double p;
    switch (s.range(0, 4))
    {
    case 0: p = s.real(0, 1); break;
    case 1: p = s.pick(std::vector<double>{0.0, -0.0, 1.0, 0.5, std::nextafter(1.0, 2.0), std::nextafter(1.0, 0.0), 5e-324, -5e-324, 2.0, -1.0}); break;
    case 2: p = s.flip() ? INFINITY : -INFINITY; break;
    case 3: p = 1 + s.mag(-16, 300); break;
    default: p = s.mag(-320, 300);
    }
    s.note("p", p);
    bool ok = p >= 0 && p <= 1;
    s.label(ok ? "valid" : "invalid");
    if (p != 0.5) s.nontrivial();
    if (ok) Random::ValidateProbability(p);
    else must_throw<std::invalid_argument>("invalid probability", [&] { Random::ValidateProbability(p); });
}

Property pbt::property()
{
    Property p;
    p.id = "C15";
    p.facets = {{"numbers", 4, numbers}, {"vectors", 3, vectors}, {"unusual", 1, unusual}, {"conjugate", 2, conjugate}, {"print", 2, print}, {"probability", 2, probability}};
    p.quick_cases = 400000;
    p.thorough_cases = 20000000;
    p.batch = 2000;
    p.rule = "Values of every magnitude including zeros, denormals and the largest, pairs on both sides of the tolerance, sequences and vectors of 0..40 elements, stream precisions 0..20, probabilities at and "
             "around 0 and 1, NaN and infinities against finite numbers, against exact (long double) definitions. Non-trivial: different numbers, non-empty sequences, probability other than 1/2.";
    p.assumptions = {"pairs whose exact difference is within 1e-15 relative of 1e-10 are not compared", "whether an infinity equals itself is left open"};
    return p;
}
