// C11: a spline wavelet interpolates its samples on [-4,4] and vanishes outside.
#include "akima_ref.h"
#include <k52/dsp/akima_wavelet_function.h>
using namespace pbt;
using namespace k52::dsp;

static std::vector<double> gen_samples(Src& s, int lo)
{
    int n = s.chance(0.3) ? s.range(lo, 600) : s.range(lo, 40);
    std::vector<double> v((size_t)n);
    int k = n > 60 ? 3 : s.range(0, 2);
    double ph = s.real(0, 6), am = s.range(1, 9);
    for (int i = 0; i < n; i++)
        v[(size_t)i] = k == 0 ? s.range(-5, 5) : k == 1 ? s.real(-10, 10) : k == 2 ? (s.chance(0.6) && i ? v[(size_t)i - 1] : s.range(-3, 3)) : am * std::sin(ph + 0.37 * i * (1 + 0.01 * i));
    return v;
}

static void values(Src& s)
{
    std::vector<double> v = gen_samples(s, 3);
    size_t n = v.size();
    std::vector<double> im(s.flip() ? n : (size_t)s.range(0, 5), 1.0);
    s.note("samples", v);
    s.note("n", n);
    s.label(n <= 8 ? "n<=8" : n <= 40 ? "n<=40" : "n>40");
    s.nontrivial();
    double delta = 8.0 / (double)n;
    // the same object may have had other samples, and been asked for the same arguments
    AkimaWavelet::shared_ptr w;
    double last = std::numeric_limits<double>::quiet_NaN();
    if (s.chance(0.35))
    {
        w = AkimaWavelet::CreateAkimaWavelet(gen_samples(s, 3), im);
        for (int k = s.range(0, 3); k > 0; k--)
        {
            last = s.chance(0.3) ? s.pick(std::vector<double>{-4, 4, 0}) : s.chance(0.5) ? -4 + delta * (double)s.index(n) : s.real(-4, 4);
            w->GetValue(last);
        }
        w->Init(v, im);
        s.label("initialized again");
    }
    else w = AkimaWavelet::CreateAkimaWavelet(v, im);
    std::vector<double> x(n + 2), y(n + 2);
    for (size_t i = 0; i < n; i++) { x[i + 1] = -4 + delta * (double)i; y[i + 1] = v[i]; }
    x[0] = -4 - delta;
    x[n + 1] = 4;
    AkimaWavelet::shared_ptr other;
    if (s.chance(0.2))
    {
        other = AkimaWavelet::CreateAkimaWavelet(gen_samples(s, 3), im);
        for (int k = s.range(0, 2); k > 0; k--) other->GetValue(s.real(-4, 4));
    }
    AkimaRef ref(x, y);
    long double vm = 0;
    for (double q : v) vm = std::max(vm, fabsl(q));
    auto at = [&](double t)
    {

        std::complex<double> g = w->GetValue(t);
        check(g.imag() == 0, "imaginary part ", g.imag(), " at ", t);
        check(w->real(t) == g.real(), "real part and value differ at ", t);
        return g.real();
    };
    auto verify = [&](double t)
    {
        double g = at(t);
        if (t < -4 || t > 4) { check(g == 0, "value ", g, " at ", t, " outside the support"); return; }
        size_t i = ref.interval(t);
        // interval borders are only known up to rounding
        long double want = ref.value(i, t), tol = ref.tol(i) * 100 + 1e-11L * vm * (long double)n + ref.slack(i);
        check(fabsl(g - want) <= tol, "value at ", t, " is ", g, ", expected ", (double)want, ", tolerance ", (double)tol);
    };
    if (last == last) { s.note("t", last); verify(last); }
    if (s.chance(0.1)) must_throw<std::invalid_argument>("too few samples", [&] { w->Init(std::vector<double>(s.index(3), 1.5), im); });
    for (size_t i = 0; i < n; i += n > 60 ? 1 + s.index(20) : 1)
        check(std::fabs(at(x[i + 1]) - v[i]) <= 1e-9 * (double)vm, "sample ", i, " of ", n, " at ", x[i + 1], ": ", at(x[i + 1]), " instead of ", v[i]);
    double inf = std::numeric_limits<double>::infinity();
    // the ends of the support always
    check(std::fabs(at(-4) - v[0]) <= 1e-9 * (double)vm, "value at -4: ", at(-4), " instead of ", v[0]);
    check(std::fabs(at(4)) <= 1e-9 * (double)vm, "value at 4: ", at(4), " instead of 0");
    check(at(std::nextafter(-4, -5)) == 0, "not zero just below -4");
    check(at(std::nextafter(4, 5)) == 0, "not zero just above 4");
    for (int k = 0; k < 8; k++)
    {
        double t;
        switch (s.range(0, 4))
        {
        case 0: t = s.real(-4, 4); break;
        case 1: t = std::nextafter(4.0, 0.0); break;
        case 2: t = s.flip() ? inf : -inf; break;
        case 3: t = s.mag(-3, 300); break;
        default: t = s.real(-6, 6);
        }
        s.note("t", t);
        verify(t);
    }
}

static void every_n(Src& s)
{
    // the ends of the support must have a value for every number of samples
    int n = s.range(3, 1500);
    std::vector<double> v((size_t)n);
    double a = s.range(1, 9);
    for (int i = 0; i < n; i++) v[(size_t)i] = a * (i % 7 - 3);
    s.note("n", n);
    s.nontrivial();
    AkimaWavelet::shared_ptr w = AkimaWavelet::CreateAkimaWavelet(v, v);
    check(std::fabs(w->GetValue(4).real()) <= 1e-9 * a * 3, "value at 4: ", w->GetValue(4).real());
    check(std::fabs(w->GetValue(-4).real() - v[0]) <= 1e-9 * a * 3, "value at -4");
    double t = std::nextafter(4.0, 0.0);
    check(std::fabs(w->GetValue(t).real()) <= 1e-9 * a * 3, "value just below 4");
    check(std::fabs(w->GetValue(-4 + 8.0 / n * (n - 1)).real() - v[(size_t)n - 1]) <= 1e-9 * a * 3 * n, "last sample");
}

static void rejects(Src& s)
{
    int n = s.range(0, 2);
    std::vector<double> v((size_t)n, 1.5), im((size_t)s.range(0, 8), 0.5);
    s.note("n", n);
    s.nontrivial();
    must_throw<std::invalid_argument>("too few samples", [&] { AkimaWavelet::CreateAkimaWavelet(v, im); });
}

Property pbt::property()
{
    Property p;
    p.id = "C11";
    p.facets = {{"values", 10, values}, {"every_n", 6, every_n}, {"rejects", 1, rejects}};
    p.quick_cases = 120000;
    p.thorough_cases = 4000000;
    p.batch = 500;
    p.rule = "Wavelets from 3..600 generated samples, evaluated at the samples, the ends of the support, the neighbouring doubles of the ends, inside, outside and at infinity, partly on an object that had other samples before and was asked for the same arguments, or that has just refused too few samples, compared with the Akima interpolant "
             "in long double; the ends of the support for every number of samples up to 1500; too few samples. Every case is non-trivial.";
    p.assumptions = {"the imaginary samples are not used by the library (the value is real)"};
    return p;
}
