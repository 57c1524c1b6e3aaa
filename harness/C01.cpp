// C01: the direct and the fast Fourier transform are the DFT.
#include "dsp_util.h"
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
using namespace pbt;
using namespace k52::dsp;

static long double ft_tol(const Sig& x) { return abs_sum(x) * 1e-15L * (100 + 40 * (long double)x.size()); }
static long double fft_tol(const Sig& x) { return abs_sum(x) * 1e-13L; }

static void classify(Src& s, const Sig& x)
{
    if (x.size() >= 2 && nonzeros(x) >= 1) s.nontrivial();
    s.label(x.size() <= 1 ? "N<=1" : x.size() <= 16 ? "N<=16" : x.size() <= 128 ? "N<=128" : x.size() <= 512 ? "N<=512" : "N>512");
    if (x.size() % 2) s.label("N odd");
    if (x.size() > 1 && (x.size() & (x.size() - 1)) == 0) s.label("N power of two");
}

static void direct(Src& s)
{
    size_t N = (size_t)gen_len(s, 160, 0);
    Sig x = gen_signal(s, N, 280);
    s.note("N", N);
    s.note("signal", x);
    classify(s, x);
    Sig copy = x;
    FourierTransform t;
    expect_close("direct transform", t.Transform(x), ref_dft(x), ft_tol(x));
    check(x == copy, "the input was modified");
    // objects have no history
    Sig y = gen_signal(s, s.flip() ? N : (size_t)gen_len(s, 60, 0));
    s.note("and", y);
    expect_close("direct transform of another signal", t.Transform(y), ref_dft(y), ft_tol(y));
    expect_close("direct transform, second use", t.Transform(x), ref_dft(x), ft_tol(x));
}

static void direct_big(Src& s)
{
    size_t N = (size_t)gen_len(s, 700, 161);
    Sig x = gen_signal(s, N);
    s.note("N", N);
    classify(s, x);
    FourierTransform t;
    expect_close("direct transform", t.Transform(x), ref_dft(x), ft_tol(x));
}

static void fast_n(Src& s, int lo, int hi)
{
    size_t N = (size_t)gen_len(s, hi, lo);
    Sig x = gen_signal(s, N, 280);
    s.note("N", N);
    s.note("signal", x);
    classify(s, x);
    Sig copy = x;
    FastFourierTransform t(N);
    expect_close("fast transform", t.Transform(x), ref_dft(x), fft_tol(x));
    check(x == copy, "the input was modified");
}
static void fast(Src& s) { fast_n(s, 1, 300); }
static void fast_big(Src& s) { fast_n(s, 301, 2100); }

static void fast_huge(Src& s)
{
    size_t N = (size_t)huge_len(s, 140000);
    Sparse p(s, N);
    s.note("N", N); s.note("not zero", p.at);
    classify(s, p.x);
    FastFourierTransform t(N);
    Sig copy = p.x;
    expect_close("fast transform", t.Transform(p.x), p.transform(-1), fft_tol(p.x));
    check(p.x == copy, "the input was modified");
}

// Relations that need no reference: linearity, shift, conjugation symmetry of real signals, energy.
static void relations(Src& s)
{
    size_t N = (size_t)gen_len(s, 64);
    bool use_fast = s.flip();
    boost::shared_ptr<IFourierTransform> t;
    if (use_fast) t.reset(new FastFourierTransform(N)); else t.reset(new FourierTransform());
    Sig x = gen_signal(s, N), y = gen_signal(s, N);
    cd a(s.real(-3, 3), s.real(-3, 3)), b(s.real(-3, 3), s.real(-3, 3));
    s.note("fast", use_fast); s.note("x", x); s.note("y", y); s.note("a", a); s.note("b", b);
    classify(s, x);
    Sig z(N);
    for (size_t i = 0; i < N; i++) z[i] = a * x[i] + b * y[i];
    Sig X = t->Transform(x), Y = t->Transform(y), Z = t->Transform(z);
    long double tol = 20 * (ft_tol(x) * (1 + abs(a)) + ft_tol(y) * (1 + abs(b)) + ft_tol(z));
    std::vector<cl> lin(N);
    for (size_t i = 0; i < N; i++) lin[i] = cl(a * X[i] + b * Y[i]);
    expect_close("linearity", Z, lin, tol);
    // circular shift
    size_t d = s.index(N);
    Sig sh(N);
    for (size_t i = 0; i < N; i++) sh[(i + d) % N] = x[i];
    Sig SH = t->Transform(sh);
    std::vector<cl> want(N);
    for (size_t k = 0; k < N; k++)
    {
        long double ang = -2 * PI_L * (long double)(k * d % N) / (long double)N;
        want[k] = cl(X[k]) * cl(cosl(ang), sinl(ang));
    }
    expect_close("shift theorem", SH, want, tol);
    // real signal
    Sig re(N);
    for (size_t i = 0; i < N; i++) re[i] = x[i].real();
    Sig R = t->Transform(re);
    for (size_t k = 1; k < N; k++)
        check(abs(R[k] - conj(R[N - k])) <= tol, "a real signal must have a conjugate symmetric spectrum; bin ", k, ": ", R[k], " and ", R[N - k]);
    // energy
    long double ex = 0, eX = 0, scale = max_abs(x);
    if (scale > 0)
    {
        for (auto& v : x) { long double h = hypotl(v.real(), v.imag()) / scale; ex += h * h; }
        for (auto& v : X) { long double h = hypotl(v.real(), v.imag()) / scale; eX += h * h; }
        check(fabsl(eX / N - ex) <= 1e-9L * (ex + 1), "energy: ", (double)(eX / N), " instead of ", (double)ex);
    }
}

static void rejects(Src& s)
{
    size_t N = (size_t)gen_len(s, 40);
    size_t M = (size_t)s.range(0, 60);
    s.note("N", N); s.note("M", M);
    if (N != M) s.nontrivial();
    FastFourierTransform t(N);
    Sig x = gen_signal(s, M);
    if (M != N) must_throw<std::invalid_argument>("signal of another size", [&] { t.Transform(x); });
    Sig y = gen_signal(s, N);
    expect_close("fast transform after a rejected call", t.Transform(y), ref_dft(y), fft_tol(y));
    must_throw<std::invalid_argument>("size 0", [&] { FastFourierTransform z(0); });
}

Property pbt::property()
{
    Property p;
    p.id = "C01";
    p.facets = {{"direct", 800, direct}, {"direct_big", 40, direct_big}, {"fast", 800, fast}, {"fast_big", 120, fast_big}, {"fast_huge", 4, fast_huge},
                {"relations", 800, relations}, {"rejects", 320, rejects}};
    p.quick_cases = 30000;
    p.thorough_cases = 1500000;
    p.rule = "Signals of generated length (small, powers of two and neighbours, primes, up to 2100; of few values up to 140000) and shape (sparse, integer, tone, "
             "constant, imaginary, dense, scaled by 1e-280..1e280), compared with a long double evaluation of the definition and through linearity, "
             "shift, symmetry and energy relations. Non-trivial: at least two samples, at least one non-zero (for rejects: the sizes differ).";
    p.assumptions = {"FFTW plans are made with FFTW_ESTIMATE instead of FFTW_PATIENT (the planner flag does not change what is computed)",
                     "tolerance: 1e-13 of the sum of magnitudes for the fast transform, about 4e-14*N of it for the direct one"};
    return p;
}
