// C08: mother wavelets have their defined shape everywhere.
#include "wavelets.h"
using namespace pbt;
using namespace k52::dsp;

static double gen_t(Src& s)
{
    static const double bp[] = {0, 0.25, -0.25, 0.5, -0.5, 0.75, -0.75, 1, -1, 3, -3, 4, -4};
    double t;
    switch (s.range(0, 5))
    {
    case 0: t = bp[s.index(13)]; break;
    case 1:
        t = bp[s.index(13)];
        t = std::nextafter(t, s.flip() ? 1e300 : -1e300);
        break;
    case 2: t = s.real(-1, 1); break;
    case 3: t = s.real(-12, 12); break;
    case 4: t = s.real(-100, 100); break;
    default: t = s.mag(-300, 150);
    }
    return t;
}

static int haar(double x) { return x >= -0.5 && x < 0 ? -1 : x > 0 && x <= 0.5 ? 1 : 0; }
static int haar_im(double x) { return x >= -0.25 && x < 0.25 ? -1 : x > 0.25 && x <= 0.75 ? 1 : 0; }

static void close(const char* what, double t, double got, long double want, long double tol)
{
    check(fabsl(got - want) <= tol, what, " at ", t, " is ", got, ", expected ", (double)want);
}

static void values(Src& s)
{
    // several arguments on shared and on new objects: no history
    static HaarWaveletFunction h0;
    static MhatWaveletFunction m0;
    static MorletWaveletFunction o0;
    HaarWaveletFunction h;
    MhatWaveletFunction m;
    MorletWaveletFunction o;
    int n = s.range(1, 12);
    bool any = false;
    std::vector<double> ts;
    for (int i = 0; i < n; i++) ts.push_back(gen_t(s));
    s.note("t", ts);
    for (double t : ts)
    {
        any = any || t != 0;
        s.label(std::fabs(t) <= 1 ? "|t|<=1" : std::fabs(t) <= 12 ? "|t|<=12" : "large");
        for (HaarWaveletFunction* p : {&h, &h0})
        {
            check(p->GetValue(t) == cd(haar(t), haar_im(t)), "Haar at ", t, " is ", p->GetValue(t), ", expected ", cd(haar(t), haar_im(t)));
            check(p->real(t) == haar(t) && p->imag(t) == haar_im(t), "Haar parts at ", t);
        }
        long double k = (long double)t / 3;
        long double e = k * k > 40000 ? 0 : expl(-k * k / 2);
        long double amp = 2 / sqrtl(9) * powl(PI_L, 0.25L);
        long double mh = e == 0 ? 0 : amp * (1 - k * k) * e;
        for (MhatWaveletFunction* p : {&m, &m0})
        {
            cd v = p->GetValue(t);
            close("Mexican hat", t, v.real(), mh, 1e-13L * (1 + k * k) * (1 + k * k) * e + 1e-300L);
            close("Mexican hat real part", t, p->real(t), mh, 1e-13L * (1 + k * k) * (1 + k * k) * e + 1e-300L);
            check(v.imag() == 0, "Mexican hat has the imaginary part ", v.imag(), " at ", t);
        }
        long double g = (long double)t * t / 2 > 20000 ? 0 : expl(-(long double)t * t / 2);
        for (MorletWaveletFunction* p : {&o, &o0})
        {
            cd v = p->GetValue(t);
            close("Morlet real part", t, v.real(), g == 0 ? 0 : g * cosl(5 * (long double)t), 1e-13L * (1 + (long double)t * t) * g + 1e-300L);
            close("Morlet imaginary part", t, v.imag(), g == 0 ? 0 : g * sinl(5 * (long double)t), 1e-13L * (1 + (long double)t * t) * g + 1e-300L);
        }
    }
    if (any) s.nontrivial();
}

Property pbt::property()
{
    Property p;
    p.id = "C08";
    p.facets = {{"values", 1, values}};
    p.quick_cases = 400000;
    p.thorough_cases = 20000000;
    p.batch = 2000;
    p.rule = "Arguments at the break points, their floating-point neighbours, uniform in [-1,1], [-12,12], [-100,100] and of every magnitude up to 1e150, on fresh and on long-lived objects, "
             "compared with the formulas in long double. Non-trivial: some argument is not 0.";
    p.assumptions = {"the Mexican hat's constant factor is the one the code has always used, 2/sqrt(9)*pi^(1/4)"};
    return p;
}
