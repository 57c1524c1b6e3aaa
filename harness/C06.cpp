// C06: the fast wavelet transform is the correlation with the scaled wavelet.
#include "wavelets.h"
#include <k52/dsp/transform/wavelet/fast_wavelet_transform.h>
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
using namespace pbt;
using namespace k52::dsp;

struct UserScale : IScale
{
    std::vector<double> v;
    std::vector<double> GetScales() const override { return v; }
};

static IScale::shared_ptr gen_scale(Src& s, std::string& name)
{
    std::ostringstream o;
    IScale::shared_ptr r;
    switch (s.range(0, 2))
    {
    case 0:
        {
            double a = s.real(0.1, 4), b = a + s.real(0.1, 20);
            size_t n = (size_t)s.range(2, 6);
            o << "linear " << a << " " << b << " " << n;
            r.reset(new LinearScale(a, b, n));
            break;
        }
    case 1:
        {
            int a = s.range(-3, 3), b = a + s.range(1, 5);
            o << "log " << a << " " << b;
            r.reset(new LogarithmicScale(a, b));
            break;
        }
    default:
        {
            UserScale* u = new UserScale;
            int n = s.range(0, 6);
            for (int i = 0; i < n; i++)
                u->v.push_back(s.chance(0.2) && i ? u->v[s.index((size_t)i)] : s.real(0.05, 30));
            o << "user " << show(u->v);
            r.reset(u);
        }
    }
    name = o.str();
    return r;
}

static void rows(Src& s)
{
    size_t N = (size_t)gen_len(s, 100);
    std::string wn, sn;
    IWavelet::shared_ptr w = gen_wavelet(s, wn);
    IScale::shared_ptr sc = gen_scale(s, sn);
    bool cached = s.flip();
    Sig x = gen_signal(s, N);
    s.note("N", N); s.note("wavelet", wn); s.note("scale", sn); s.note("cached", cached); s.note("x", x);
    s.label("wavelet:" + wn.substr(0, 4));
    s.label("scale:" + sn.substr(0, 4));
    if (N % 2) s.label("N odd");
    std::vector<double> scales = sc->GetScales();
    if (N >= 4 && nonzeros(x) && !scales.empty()) s.nontrivial();
    FastWaveletTransform t(sc, N, cached ? 100 : -1);
    Sig x0 = x;
    for (int rep = 0; rep < (cached ? 2 : 1); rep++)
    {
        std::vector<std::vector<cd>> r = t.Transform(x, w);
        check(r.size() == scales.size(), r.size(), " rows for ", scales.size(), " scales");
        for (size_t i = 0; i < r.size(); i++)
        {
            long double norm;
            std::vector<cl> want = ref_row(x, *w, scales[i], false, norm);
            expect_close(("row " + std::to_string(i) + " scale " + show(scales[i])).c_str(), r[i], want, 1e-12L * abs_sum(x) * (norm + 1e-30L));
        }
        check(x == x0, "the input was modified");
    }
}

static void single_n(Src& s, size_t N)
{
    std::string wn;
    IWavelet::shared_ptr w = gen_wavelet(s, wn);
    double scale = s.flip() ? s.real(0.05, 10) : std::pow(10.0, s.real(-3, 3));
    Sig x = gen_signal(s, N);
    s.note("N", N); s.note("wavelet", wn); s.note("scale", scale); s.note("x", x);
    s.label("wavelet:" + wn.substr(0, 4));
    if (N >= 4 && nonzeros(x)) s.nontrivial();
    IScale::shared_ptr sc(new LogarithmicScale(0, 1));
    FastWaveletTransform t(sc, N, s.flip() ? 100 : -1);
    long double norm;
    std::vector<cl> want = ref_row(x, *w, scale, true, norm);
    expect_close("one scale", t.TransformOneScale(x, w, scale), want, 1e-12L * abs_sum(x) * (norm + 1e-30L));
    // and as a row of the full transform: rotated back by half the length
    UserScale* u = new UserScale;
    u->v.assign(1, scale);
    FastWaveletTransform t2(IScale::shared_ptr(u), N);
    std::vector<std::vector<cd>> full = t2.Transform(x, w);
    check(full.size() == 1, "one scale, ", full.size(), " rows");
    want = ref_row(x, *w, scale, false, norm);
    expect_close("the only row", full[0], want, 1e-12L * abs_sum(x) * (norm + 1e-30L));
    // an impulse and its circular shift
    size_t d = s.index(N);
    Sig sh(N);
    for (size_t i = 0; i < N; i++) sh[(i + d) % N] = x[i];
    Sig r = t2.Transform(sh, w)[0];
    std::vector<cl> rot(N);
    for (size_t i = 0; i < N; i++) rot[(i + d) % N] = cl(full[0][i]);
    expect_close("row of the shifted signal", r, rot, 1e-12L * abs_sum(x) * (norm + 1e-30L));
}

static void single(Src& s) { single_n(s, (size_t)gen_len(s, 300)); }
static void long_ones(Src& s) { single_n(s, (size_t)gen_len(s, 1600, 301)); }

static void rejects(Src& s)
{
    s.nontrivial();
    size_t N = (size_t)s.range(1, 40);
    std::string wn;
    IWavelet::shared_ptr w = gen_wavelet(s, wn);
    bool cached = s.flip();
    Sig x = gen_signal(s, N);
    UserScale* u = new UserScale;
    int n = s.range(1, 4), badat = s.range(0, n - 1);
    for (int i = 0; i < n; i++) u->v.push_back(i == badat ? (s.flip() ? 0.0 : s.chance(0.3) ? (double)NAN : -s.real(1e-9, 10)) : s.real(0.5, 4));
    IScale::shared_ptr sc(u);
    s.note("N", N); s.note("scales", u->v); s.note("cached", cached);
    FastWaveletTransform t(sc, N, cached ? 10 : 0);
    must_throw<std::invalid_argument>("non-positive scale", [&] { t.TransformOneScale(x, w, u->v[(size_t)badat]); });
    must_throw<std::invalid_argument>("non-positive scale in the scales", [&] { t.Transform(x, w); });
    size_t M = (size_t)s.range(0, 60);
    if (M == N) M++;
    Sig y = gen_signal(s, M);
    must_throw<std::exception>("signal of another length", [&] { t.TransformOneScale(y, w, 1.5); });
    long double norm;
    std::vector<cl> want = ref_row(x, *w, 1.5, true, norm);
    expect_close("after rejected calls", t.TransformOneScale(x, w, 1.5), want, 1e-12L * abs_sum(x) * (norm + 1e-30L));
    must_throw<std::invalid_argument>("length 0", [&] { FastWaveletTransform z(sc, 0); });
}

Property pbt::property()
{
    Property p;
    p.id = "C06";
    p.facets = {{"rows", 1000, rows}, {"single", 1000, single}, {"long_ones", 2, long_ones}, {"rejects", 300, rejects}};
    p.quick_cases = 60000;
    p.thorough_cases = 2000000;
    p.rule = "Generated signals (1..300), wavelets (Morlet, Haar, Mexican hat, generated asymmetric complex bumps) and scales (linear, logarithmic, user-supplied lists with repetitions), "
             "with and without cache, compared with the correlation formula in long double; shift relation; invalid scales and lengths. Non-trivial: N >= 4, signal not zero, at least one scale.";
    p.assumptions = {"FFTW plans are made with FFTW_ESTIMATE instead of FFTW_PATIENT",
                     "for odd N the wavelet is sampled half a sample off (the code's symmetric grid n - N/2), which is taken as the definition"};
    return p;
}
