// C02: the inverse Fourier transform undoes the forward one.
#include "dsp_util.h"
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/inverse_fourier_transform.h>
using namespace pbt;
using namespace k52::dsp;

static IFourierTransform::shared_ptr forward(bool fast, size_t N)
{
    if (fast) return IFourierTransform::shared_ptr(new FastFourierTransform(N));
    return IFourierTransform::shared_ptr(new FourierTransform());
}
static long double tol_of(const Sig& x, bool fast)
{
    return abs_sum(x) * (fast ? 2e-13L : 1e-15L * (200 + 80 * (long double)x.size()));
}

static void definition(Src& s)
{
    bool fast = s.flip();
    size_t N = (size_t)gen_len(s, fast ? 260 : 130, fast ? 1 : 0);
    Sig X = gen_signal(s, N);
    s.note("fast", fast); s.note("N", N); s.note("spectrum", X);
    s.label(fast ? "on fast" : "on direct");
    if (N >= 2 && nonzeros(X)) s.nontrivial();
    InverseFourierTransform inv(forward(fast, N));
    Sig copy = X;
    std::vector<cl> want = ref_dft(X, +1);
    for (auto& v : want) v /= (long double)N;
    expect_close("inverse transform", inv.Transform(X), want, tol_of(X, fast) / (N ? N : 1) * 2);
    check(X == copy, "the input was modified");
    if (fast) return;
    // the same object for other lengths
    Sig Y = gen_signal(s, (size_t)gen_len(s, 60, 0));
    s.note("another spectrum", Y);
    want = ref_dft(Y, +1);
    for (auto& v : want) v /= (long double)Y.size();
    expect_close("inverse transform of another spectrum", inv.Transform(Y), want, tol_of(Y, false) / std::max<size_t>(Y.size(), 1) * 2);
}

static void round_trip(Src& s)
{
    bool fast = s.flip(), other = s.flip();
    size_t N = (size_t)gen_len(s, 120, 1);
    Sig x = gen_signal(s, N);
    s.note("inverse on fast", fast); s.note("forward is fast", other); s.note("N", N); s.note("x", x);
    s.label(fast == other ? "same transform" : "mixed transforms");
    if (N >= 2 && nonzeros(x)) s.nontrivial();
    IFourierTransform::shared_ptr f = forward(other, N);
    InverseFourierTransform inv(fast == other ? f : forward(fast, N));
    long double tol = 1e-15L * (400 + 200 * (long double)N) * abs_sum(x) * (1 + std::sqrt((long double)N));
    // a large scale next to the tolerance would say nothing: require it relative to the signal
    expect_close("forward, then inverse", inv.Transform(f->Transform(x)), widen(x), std::min(tol, 1e-9L * abs_sum(x)));
    expect_close("inverse, then forward", f->Transform(inv.Transform(x)), widen(x), std::min(tol, 1e-9L * abs_sum(x)));
    // the same object again with other data
    Sig y = gen_signal(s, N);
    expect_close("second round trip", inv.Transform(f->Transform(y)), widen(y), 1e-9L * abs_sum(y));
}

static void huge(Src& s)
{
    size_t N = (size_t)huge_len(s, 70000);
    Sparse p(s, N);
    s.note("N", N); s.note("not zero", p.at);
    s.nontrivial();
    IFourierTransform::shared_ptr f = forward(true, N);
    InverseFourierTransform inv(f);
    std::vector<cl> want = p.transform(+1);
    for (auto& v : want) v /= (long double)N;
    expect_close("inverse transform", inv.Transform(p.x), want, tol_of(p.x, true) / N * 2);
    expect_close("forward, then inverse", inv.Transform(f->Transform(p.x)), widen(p.x), 1e-10L * abs_sum(p.x));
}

static void rejects(Src& s)
{
    size_t N = (size_t)gen_len(s, 40), M = (size_t)s.range(0, 50);
    s.note("N", N); s.note("M", M);
    InverseFourierTransform inv(forward(true, N));
    if (M != N)
    {
        s.nontrivial();
        Sig x = gen_signal(s, M);
        must_throw<std::invalid_argument>("sequence of another length", [&] { inv.Transform(x); });
    }
    Sig y = gen_signal(s, N);
    std::vector<cl> want = ref_dft(y, +1);
    for (auto& v : want) v /= (long double)N;
    expect_close("inverse after a rejected call", inv.Transform(y), want, tol_of(y, true) / N * 2);
}

Property pbt::property()
{
    Property p;
    p.id = "C02";
    p.facets = {{"definition", 1000, definition}, {"round_trip", 1000, round_trip}, {"rejects", 300, rejects}, {"huge", 2, huge}};
    p.quick_cases = 120000;
    p.thorough_cases = 3000000;
    p.rule = "Generated sequences (lengths 0..260, of few values up to 70000, sparse/integer/tone/dense, scaled 1e-100..1e100) through the inverse on the direct and on the fast "
             "transform, compared with a long double inverse DFT and with the sequence itself after both compositions. Non-trivial: two or more values, not all zero "
             "(rejects: lengths differ).";
    p.assumptions = {"FFTW plans are made with FFTW_ESTIMATE instead of FFTW_PATIENT", "tolerances proportional to the sum of magnitudes (2e-13 fast, about 8e-14*N direct)"};
    return p;
}
