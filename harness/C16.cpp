// C16: random quantities stay in range, reach the whole range and have the asked odds.
#include "rand_ctl.h"
#include <cfloat>
#include <climits>
using namespace pbt;
using k52::common::Random;

static double slack(double a, double b) { return 4e-16 * (std::fabs(a) + std::fabs(b)); }

// any mixture of draws, any generator output
static void ranges(Src& s)
{
    rc::begin(s);
    Random& r = Random::Instance();
    check(&r == &Random::Instance(), "two instances");
    int n = s.size(1, 40);
    bool some = false;
    for (int i = 0; i < n; i++)
    {
        switch (s.range(0, 5))
        {
        case 0: { double v = r.GetBaseRandomQuantity(); check(v >= 0 && v <= 1, "base quantity ", v); break; }
        case 1:
            {
                double a = s.flip() ? s.real(-10, 10) : s.mag(-100, 100), b = s.chance(0.1) ? a : a + std::fabs(s.flip() ? s.real(0, 20) : s.mag(-100, 100));
                // a width beyond the largest double
                if (s.chance(0.05)) { a = s.flip() ? -DBL_MAX : -s.mag(300, 308.2); b = s.flip() ? DBL_MAX : s.mag(300, 308.2); a = -std::fabs(a); b = std::fabs(b); }
                double v = r.GetContinuousRandomQuantity(a, b), t = slack(a, b);
                if (s.noting()) s.note() << "continuous " << show(a) << ".." << show(b) << ": " << show(v) << "\n";
                check(v >= a - t && v <= b + t, "continuous quantity ", v, " for ", a, "..", b);
                some = some || a < b;
                break;
            }
        case 2:
            {
                double a = s.real(-10, 10), b = a + s.real(0, 20);
                size_t k = (size_t)s.size(0, 20);
                if (s.noting()) s.note() << "vector of " << k << ", " << show(a) << ".." << show(b) << "\n";
                std::vector<double> v = r.GenerateRandomVector(k, a, b);
                check(v.size() == k, "vector of ", v.size(), " for ", k);
                for (double e : v) check(e >= a - slack(a, b) && e <= b + slack(a, b), "element ", e, " for ", a, "..", b);
                some = some || (k && a < b);
                break;
            }
        case 3:
            {
                int a, b;
                switch (s.range(0, 4))
                {
                case 0: a = s.range(-20, 20); b = a + s.range(0, 20); break;
                case 1: a = s.range(-3, 1); b = (int)std::min<long long>(INT_MAX, INT_MAX - 1LL + a + s.range(0, 2)); break;
                case 4: a = s.flip() ? INT_MIN : INT_MIN + s.range(0, 5); b = s.flip() ? INT_MAX : s.flip() ? INT_MAX - s.range(0, 5) : (int)s.range64(a, INT_MAX); break;
                case 2: a = INT_MIN + s.range(0, 1000); b = a + s.range(0, 1000); break;
                default: { a = (int)s.range64(-2000000000LL, 2000000000LL); long long w = s.range64(0, INT_MAX - 1LL); b = (int)std::min<long long>(a + w, INT_MAX); }
                }
                if (s.noting()) s.note() << "discrete " << a << ".." << b << "\n";
                if ((long long)b - a >= RAND_MAX) s.label("discrete, more values than the generator has");
                int v = r.GetUniformlyDistributedDiscreteRandomQuantity(a, b);
                check(v >= a && v <= b, "discrete quantity ", v, " for ", a, "..", b);
                some = some || a < b;
                break;
            }
        case 4: { int k = s.size(1, 70); for (int j = 0; j < k; j++) r.GetRandomBool(); some = true; break; }
        default:
            {
                double p = s.chance(0.3) ? 0.0 : s.chance(0.3) ? 1.0 : s.unit();
                if (s.noting()) s.note() << "event of probability " << show(p) << "\n";
                bool v = r.CheckEventOutcome(p);
                if (p == 0) check(!v, "an event of probability 0 happened");
                if (p == 1) check(v, "an event of probability 1 did not happen");
            }
        }
    }
    if (some) s.nontrivial();
}

// the ends of the ranges, by the generator's smallest and largest outputs
static void ends(Src& s)
{
    rc::begin(s, true);
    Random& r = Random::Instance();
    s.nontrivial();
    double a = s.real(-10, 10), b = a + s.real(0.1, 20);
    s.note("a", a); s.note("b", b);
    double lo = INFINITY, hi = -INFINITY, blo = 2, bhi = -1;
    rc::mode = 2;
    for (int c : {0, RAND_MAX})
    {
        rc::constant = c;
        double v = r.GetContinuousRandomQuantity(a, b), q = r.GetBaseRandomQuantity();
        std::vector<double> e = r.GenerateRandomVector(2, a, b);
        check(std::fabs(e[0] - v) <= slack(a, b) && std::fabs(e[1] - v) <= slack(a, b), "elements and single quantities differ");
        lo = std::min(lo, v); hi = std::max(hi, v);
        blo = std::min(blo, q); bhi = std::max(bhi, q);
    }
    check(blo == 0 && bhi == 1, "base quantities span ", blo, "..", bhi);
    check(std::fabs(lo - a) <= slack(a, b) && std::fabs(hi - b) <= slack(a, b), "quantities span ", lo, "..", hi, " for ", a, "..", b);
    double p = s.flip() ? s.mag(-300, -1) : 1 - std::fabs(s.mag(-15, -1));
    p = std::min(1.0, std::fabs(p));
    if (p > 0 && p < 1)
    {
        s.note("p", p);
        bool y = false, n = false;
        for (int c : {0, RAND_MAX}) { rc::constant = c; (r.CheckEventOutcome(p) ? y : n) = true; }
        check(y && n, "an event of probability ", p, y ? " always happens" : " never happens");
    }
    double bad = s.flip() ? 1 + std::fabs(s.mag(-15, 10)) : -std::fabs(s.mag(-300, 10));
    if (bad < 0 || bad > 1) must_throw<std::invalid_argument>("invalid probability", [&] { r.CheckEventOutcome(bad); });
    must_throw<std::invalid_argument>("NaN as a probability", [&] { r.CheckEventOutcome(NAN); });
}

static void near(const char* what, double hits, double n, double p)
{
    // 7 standard deviations and a little: a false alarm in 10^11
    double sd = std::sqrt(n * p * (1 - p));
    check(std::fabs(hits - n * p) <= 7 * sd + 3, what, ": ", hits, " of ", n, ", expected ", n * p);
}

static void odds(Src& s)
{
    rc::begin(s, true);
    Random& r = Random::Instance();
    s.nontrivial();
    int n = 4000;
    switch (s.range(0, 3))
    {
    case 0:
        {
            double p = s.unit();
            s.note("p", p);
            s.label("event");
            int h = 0;
            for (int i = 0; i < n; i++) h += r.CheckEventOutcome(p);
            near("event", h, n, p);
            break;
        }
    case 1:
        {
            int k = s.range(1, 40), a = s.range(-100, 100);
            s.note("a", a); s.note("values", k);
            if (s.chance(0.4))
            {
                // many values, in slices: every value comes from as many outputs of the generator, or one more
                long long k = s.chance(0.05) ? 1LL << 32 : (long long)std::pow(2, s.real(6, 32)), m = s.range(2, 12);
                int lo = (int)s.range64(INT_MIN, INT_MAX - k + 1);
                bool wide = k - 1 > RAND_MAX;
                s.note("from", lo); s.note("many values", (double)k); s.note("slices", (int)m);
                s.label("discrete, many values");
                std::vector<int> c((size_t)m);
                for (int i = 0; i < n; i++) c[(size_t)(((long long)r.GetUniformlyDistributedDiscreteRandomQuantity(lo, (int)(lo + k - 1)) - lo) * m / k)]++;
                if (wide) s.label("discrete, more values than the generator has");
                // for wide ranges the outputs are of at least 32 bits
                double outputs = wide ? 4294967296.0 : (double)RAND_MAX + 1;
                for (long long i = 0; i < m; i++)
                {
                    double first = std::ceil((double)i * k / m), end = std::ceil((double)(i + 1) * k / m);
                    double least = (end - first) * std::floor(outputs / k) / outputs, most = std::min(1.0, (end - first) * std::ceil(outputs / k) / outputs);
                    if (c[(size_t)i] < n * least) near(("slice " + std::to_string(i)).c_str(), c[(size_t)i], n, least);
                    if (c[(size_t)i] > n * most) near(("slice " + std::to_string(i)).c_str(), c[(size_t)i], n, most);
                }
                break;
            }
            s.label("discrete");
            std::vector<int> c((size_t)k);
            for (int i = 0; i < n; i++) c[(size_t)(r.GetUniformlyDistributedDiscreteRandomQuantity(a, a + k - 1) - a)]++;
            for (int i = 0; i < k; i++) near(("value " + std::to_string(a + i)).c_str(), c[(size_t)i], n, 1.0 / k);
            break;
        }
    case 2:
        {
            int k = s.range(1, 20);
            double a = s.real(-10, 10), w = s.real(0.1, 20);
            bool vec = s.flip();
            s.note("a", a); s.note("width", w); s.note("bins", k);
            s.label("continuous");
            std::vector<int> c((size_t)k);
            std::vector<double> v;
            if (vec) v = r.GenerateRandomVector((size_t)n, a, a + w);
            else for (int i = 0; i < n; i++) v.push_back(r.GetContinuousRandomQuantity(a, a + w));
            for (double x : v) c[(size_t)std::max(0, std::min(k - 1, (int)((x - a) / w * k)))]++;
            for (int i = 0; i < k; i++) near(("bin " + std::to_string(i)).c_str(), c[(size_t)i], n, 1.0 / k);
            break;
        }
    default:
        {
            s.label("boolean");
            int period = s.range(1, 40), off = s.size(0, 40), rows = 600;
            s.note("period", period);
            for (int i = 0; i < off; i++) r.GetRandomBool();
            std::vector<int> c((size_t)period);
            int total = 0, same = 0, last = -1;
            for (int i = 0; i < rows * period; i++)
            {
                bool b = r.GetRandomBool();
                c[(size_t)(i % period)] += b;
                total += b;
                same += last == (int)b;
                last = b;
            }
            near("booleans", total, rows * period, 0.5);
            near("booleans like the one before", same, rows * period - 1, 0.5);
            for (int i = 0; i < period; i++) near(("booleans at position " + std::to_string(i)).c_str(), c[(size_t)i], rows, 0.5);
        }
    }
}

Property pbt::property()
{
    Property p;
    p.id = "C16";
    p.facets = {{"ranges", 12, ranges}, {"ends", 4, ends}, {"odds", 2, odds}};
    p.quick_cases = 600000;
    p.thorough_cases = 6000000;
    p.batch = 500;
    p.rule = "Interleavings of all kinds of draws on a generator owned by the harness (uniform, full of extreme outputs, constant, rising), ranges of every magnitude; the ends of the ranges from the generator's "
             "smallest and largest output; frequencies over 600..24000 draws with a uniform generator, booleans at every position modulo 1..40. Non-trivial: a range with more than one value, or any odds.";
    p.assumptions = {"the code draws from rand(), which the harness defines", "ranges of discrete quantities have at most RAND_MAX values",
                     "bounds hold up to rounding", "frequencies may be off by 7 standard deviations"};
    return p;
}
