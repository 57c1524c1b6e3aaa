#ifndef WAVELETS_H
#define WAVELETS_H
#include "dsp_util.h"
#include <k52/dsp/transform/wavelet/i_wavelet.h>
#include <k52/dsp/haar_wavelet_function.h>
#include <k52/dsp/mhat_wavelet_function.h>
#include <k52/dsp/morlet_wavelet_function.h>

// A user-supplied wavelet: a few complex bumps, nowhere symmetric, everywhere smooth.
struct BumpWavelet : k52::dsp::IWavelet
{
    struct Bump { cd a; double at, width; };
    std::vector<Bump> bumps;
    mutable long calls = 0;
    cd GetValue(double t) override
    {
        calls++;
        cd r = 0;
        for (auto& b : bumps) { double u = (t - b.at) / b.width; r += b.a * std::exp(-u * u / 2); }
        return r;
    }
    // Freed memory is reused at once, so that a stale entry keyed by address is met.
    static void* pool[64];
    static int pooled;
    static void* operator new(size_t n) { return pooled ? pool[--pooled] : ::operator new(n); }
    static void operator delete(void* p) { if (pooled < 64) pool[pooled++] = p; else ::operator delete(p); }
};
void* BumpWavelet::pool[64];
int BumpWavelet::pooled = 0;

inline boost::shared_ptr<BumpWavelet> gen_bumps(pbt::Src& s)
{
    boost::shared_ptr<BumpWavelet> w(new BumpWavelet);
    int n = s.range(1, 3);
    for (int i = 0; i < n; i++)
    {
        BumpWavelet::Bump b;
        b.a = cd(s.real(-2, 2), s.real(-2, 2));
        if (std::abs(b.a) < 0.1) b.a += 1.0;
        b.at = s.real(-3, 3);
        b.width = s.real(0.2, 3);
        w->bumps.push_back(b);
    }
    return w;
}

// any wavelet; name says which
inline k52::dsp::IWavelet::shared_ptr gen_wavelet(pbt::Src& s, std::string& name)
{
    using namespace k52::dsp;
    switch (s.range(0, 4))
    {
    case 0: name = "morlet"; return IWavelet::shared_ptr(new MorletWaveletFunction());
    case 1: name = "haar"; return IWavelet::shared_ptr(new HaarWaveletFunction());
    case 2: name = "mhat"; return IWavelet::shared_ptr(new MhatWaveletFunction());
    default:
        {
            boost::shared_ptr<BumpWavelet> w = gen_bumps(s);
            std::ostringstream o;
            o << "bumps";
            for (auto& b : w->bumps) { o << " "; pbt::put(o, b.a); o << "@"; pbt::put(o, b.at); o << "/"; pbt::put(o, b.width); }
            name = o.str();
            return w;
        }
    }
}

// The row of the fast wavelet transform by its definition. shifted: as TransformOneScale
// returns it (delayed by half the length). norm is infinite where the row is not determined.
inline std::vector<cl> ref_row(const Sig& x, k52::dsp::IWavelet& w, double scale, bool shifted, long double& norm)
{
    size_t N = x.size();
    std::vector<cl> g(N), r(N);
    norm = 0;
    bool haar = dynamic_cast<k52::dsp::HaarWaveletFunction*>(&w) != nullptr;
    for (size_t n = 0; n < N; n++)
    {
        double t = (double)n - (double)N / 2.0;
        g[n] = std::conj(cl(w.GetValue(-t / scale))) / sqrtl((long double)scale);
        norm += hypotl(g[n].real(), g[n].imag());
        // Haar jumps: within rounding of one, either side is right (unless dividing by the scale is exact)
        int e;
        if (haar && std::frexp(scale, &e) != 0.5)
            for (double b : {-0.5, -0.25, 0.0, 0.25, 0.5, 0.75})
                if (t != 0 && std::fabs(-t / scale - b) < 1e-12) norm = 1e300L;
    }
    for (size_t u = 0; u < N; u++)
    {
        size_t k = shifted ? u : (u + N / 2) % N;
        cl acc = 0;
        for (size_t m = 0; m < N; m++) acc += cl(x[m]) * g[(k + N - m) % N];
        r[u] = acc;
    }
    return r;
}
#endif
