// C03: direct and Fourier-based circular convolution are the circular convolution.
#include "dsp_util.h"
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/circular_convolution.h>
#include <k52/dsp/transform/fourier_based_circular_convolution.h>
using namespace pbt;
using namespace k52::dsp;

static std::vector<cl> ref_conv(const Sig& a, const Sig& b)
{
    size_t N = a.size();
    std::vector<cl> r(N);
    for (size_t m = 0; m < N; m++)
    {
        if (a[m] == cd(0, 0)) continue;
        for (size_t q = 0; q < N; q++)
        {
            size_t n = m + q;
            if (n >= N) n -= N;
            r[n] += cl(a[m]) * cl(b[q]);
        }
    }
    return r;
}

static void classify(Src& s, const Sig& a, const Sig& b)
{
    if (a.size() >= 2 && nonzeros(a) && nonzeros(b)) s.nontrivial();
    s.label(a.size() <= 1 ? "N<=1" : a.size() <= 16 ? "N<=16" : a.size() <= 64 ? "N<=64" : "N>64");
}

static void pair(Src& s, int kind, size_t N, boost::shared_ptr<ICircularConvolution>& c)
{
    Sig a = gen_signal(s, N), b = gen_signal(s, N);
    s.note("kind", kind); s.note("a", a); s.note("b", b);
    classify(s, a, b);
    Sig a0 = a, b0 = b;
    long double k = abs_sum(a) * max_abs(b);
    long double tol;
    if (kind == 0)
    {
        if (!c) c.reset(new CircularConvolution());
        tol = 1e-15L * (20 + 4 * (long double)N) * k;
    }
    else if (kind == 1)
    {
        if (!c) c.reset(new FourierBasedCircularConvolution(IFourierTransform::shared_ptr(new FourierTransform())));
        tol = 1e-14L * (100 + 40 * (long double)N) * abs_sum(a) * abs_sum(b);
    }
    else
    {
        if (!c) c.reset(new FourierBasedCircularConvolution(IFourierTransform::shared_ptr(new FastFourierTransform(N))));
        tol = 1e-12L * abs_sum(a) * abs_sum(b);
    }
    std::vector<cl> want = ref_conv(a, b);
    expect_close("convolution", c->EvaluateConvolution(a, b), want, tol);
    check(a == a0 && b == b0, "an argument was modified");
    expect_close("convolution with exchanged arguments", c->EvaluateConvolution(b, a), want, tol + 1e-15L * (20 + 4 * (long double)N) * abs_sum(b) * max_abs(a));
    // an impulse shifts
    if (N)
    {
        size_t d = s.index(N);
        Sig imp(N);
        imp[d] = 1;
        std::vector<cl> sh(N);
        for (size_t i = 0; i < N; i++) sh[(i + d) % N] = cl(a[i]);
        expect_close("convolution with an impulse", c->EvaluateConvolution(a, imp), sh, kind == 0 ? 1e-15L * max_abs(a) : 1e-11L * abs_sum(a));
    }
}
static void one(Src& s, int kind, size_t N)
{
    boost::shared_ptr<ICircularConvolution> c;
    pair(s, kind, N, c);
    // the same object for sequences of another length, or of the same one
    if (s.chance(0.3)) pair(s, kind, kind == 2 || s.chance(0.3) ? N : (size_t)gen_len(s, 50, 0), c);
}
static void direct(Src& s) { one(s, 0, (size_t)gen_len(s, 150, 0)); }
static void by_direct_fourier(Src& s) { one(s, 1, (size_t)gen_len(s, 50, 0)); }
static void by_fast_fourier(Src& s) { one(s, 2, (size_t)gen_len(s, 200, 1)); }

static void long_ones(Src& s)
{
    size_t N = (size_t)gen_len(s, 4100, 500);
    bool fourier = s.chance(0.7);
    Sparse a(s, N), d(s, N);
    Sig b = s.chance(0.5) ? gen_signal(s, N) : d.x;
    s.note("N", N); s.note("a, where not zero", a.at); s.note("b", b); s.note("on the fast transform", fourier);
    s.nontrivial();
    boost::shared_ptr<ICircularConvolution> c;
    if (fourier) c.reset(new FourierBasedCircularConvolution(IFourierTransform::shared_ptr(new FastFourierTransform(N))));
    else c.reset(new CircularConvolution());
    std::vector<cl> want = ref_conv(a.x, b);
    long double tol = 1e-11L * abs_sum(a.x) * abs_sum(b);
    expect_close("convolution", c->EvaluateConvolution(a.x, b), want, tol);
    if (fourier) expect_close("convolution with exchanged arguments", c->EvaluateConvolution(b, a.x), want, tol);
}

static void rejects(Src& s)
{
    size_t N = (size_t)s.range(1, 30), M = (size_t)s.range(0, 30);
    if (N == M) M++;
    s.nontrivial();
    s.note("N", N); s.note("M", M);
    Sig a = gen_signal(s, N), b = gen_signal(s, M);
    CircularConvolution d;
    FourierBasedCircularConvolution f(IFourierTransform::shared_ptr(new FourierTransform()));
    FourierBasedCircularConvolution q(IFourierTransform::shared_ptr(new FastFourierTransform(N)));
    must_throw<std::runtime_error>("direct, unequal lengths", [&] { d.EvaluateConvolution(a, b); });
    must_throw<std::runtime_error>("direct, unequal lengths", [&] { d.EvaluateConvolution(b, a); });
    must_throw<std::runtime_error>("on direct Fourier, unequal lengths", [&] { f.EvaluateConvolution(a, b); });
    must_throw<std::runtime_error>("on direct Fourier, unequal lengths", [&] { f.EvaluateConvolution(b, a); });
    must_throw<std::runtime_error>("on fast Fourier, unequal lengths", [&] { q.EvaluateConvolution(a, b); });
    must_throw<std::runtime_error>("on fast Fourier, unequal lengths", [&] { q.EvaluateConvolution(b, a); });
    // and the objects still work
    Sig c = gen_signal(s, N);
    expect_close("after rejected calls", q.EvaluateConvolution(a, c), ref_conv(a, c), 1e-12L * abs_sum(a) * abs_sum(c));
    expect_close("after rejected calls", d.EvaluateConvolution(a, c), ref_conv(a, c), 1e-12L * abs_sum(a) * abs_sum(c));
}

Property pbt::property()
{
    Property p;
    p.id = "C03";
    p.facets = {{"direct", 1000, direct}, {"by_direct_fourier", 800, by_direct_fourier}, {"by_fast_fourier", 1000, by_fast_fourier}, {"rejects", 300, rejects}, {"long_ones", 2, long_ones}};
    p.quick_cases = 80000;
    p.thorough_cases = 2500000;
    p.rule = "Pairs of generated sequences of one length (0..200; of few values up to 4100), convolved by all three implementations and compared with a long double evaluation of the definition, "
             "with exchanged arguments and with shifted impulses; pairs of unequal lengths must be refused. Non-trivial: length >= 2 and both not all zero.";
    p.assumptions = {"FFTW plans are made with FFTW_ESTIMATE instead of FFTW_PATIENT", "scaled signals keep products within double range"};
    return p;
}
