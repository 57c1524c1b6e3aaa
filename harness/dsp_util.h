#ifndef DSP_UTIL_H
#define DSP_UTIL_H
#include "pbt.h"
#include <complex>
#include <vector>

typedef std::complex<double> cd;
typedef std::complex<long double> cl;
typedef std::vector<cd> Sig;

static const long double PI_L = 3.14159265358979323846264338327950288L;

// sign -1: X[k] = sum x[n] e^(-2 pi i k n / N); sign +1: without the 1/N
inline std::vector<cl> ref_dft(const std::vector<cd>& x, int sign = -1)
{
    size_t N = x.size();
    std::vector<cl> tw(N), r(N);
    for (size_t j = 0; j < N; j++)
    {
        long double a = 2 * PI_L * (long double)j / (long double)N;
        tw[j] = cl(cosl(a), sign * sinl(a));
    }
    for (size_t k = 0; k < N; k++)
    {
        long double re = 0, im = 0;
        size_t j = 0;
        for (size_t n = 0; n < N; n++)
        {
            long double a = x[n].real(), b = x[n].imag(), c = tw[j].real(), d = tw[j].imag();
            re += a * c - b * d;
            im += a * d + b * c;
            j += k;
            if (j >= N) j -= N;
        }
        r[k] = cl(re, im);
    }
    return r;
}

inline long double abs_sum(const Sig& x)
{
    long double s = 0;
    for (auto& v : x) s += hypotl(v.real(), v.imag());
    return s;
}
inline long double max_abs(const Sig& x)
{
    long double s = 0;
    for (auto& v : x) s = std::max(s, hypotl(v.real(), v.imag()));
    return s;
}

inline void expect_close(const char* what, const Sig& got, const std::vector<cl>& want, long double tol)
{
    pbt::check(got.size() == want.size(), what, ": ", got.size(), " values instead of ", want.size());
    for (size_t i = 0; i < got.size(); i++)
    {
        long double d = hypotl(got[i].real() - want[i].real(), got[i].imag() - want[i].imag());
        if (!(d <= tol))
            pbt::fail(what, ": value ", i, " of ", got.size(), " is ", got[i], ", expected ",
                      cd((double)want[i].real(), (double)want[i].imag()), " (off by ", (double)d, ", tolerance ", (double)tol, ")");
    }
}
inline std::vector<cl> widen(const Sig& s) { return std::vector<cl>(s.begin(), s.end()); }

// lengths: small ones, powers of two and their neighbours, primes, anything
inline int gen_len(pbt::Src& s, int hi, int lo = 1)
{
    static const int primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 31, 37, 61, 67, 97, 127, 131, 251, 257, 509, 521, 1021, 1031, 2039, 2053, 4093};
    for (;;)
    {
        int v = lo;
        switch (s.range(0, 5))
        {
        case 0: case 1: v = s.range(lo, std::min(hi, lo + 15)); break;
        case 2: v = s.range(lo, std::min(hi, 64)); break;
        case 3: { int e = s.range(0, 12); v = (1 << e) + s.range(0, 2) - 1; break; }
        case 4: v = primes[s.range(0, 24)]; break;
        default: v = s.range(lo, hi);
        }
        if (v > hi) v = lo + v % (hi - lo + 1);
        if (v >= lo) return v;
        return lo;
    }
}

inline Sig gen_signal(pbt::Src& s, size_t N, int emax = 100)
{
    Sig x(N);
    int kind = s.range(0, 7);
    int e = s.chance(0.25) ? s.range(-emax, emax) : 0;    // scale
    double sc = std::pow(10.0, e);
    switch (kind)
    {
    case 0: // few nonzero values
        {
            int m = N ? s.range(1, 4) : 0;
            for (int i = 0; i < m; i++) x[s.index(N)] = cd(s.range(-5, 5), s.range(-5, 5));
            break;
        }
    case 1: for (auto& v : x) v = cd(s.range(-9, 9), 0); break;
    case 2: for (auto& v : x) v = cd(s.range(-9, 9), s.range(-9, 9)); break;
    case 3: { cd c(s.real(-3, 3), s.real(-3, 3)); for (auto& v : x) v = c; break; }
    case 4: // a tone
        {
            size_t k = N ? s.index(N) : 0;
            double a = s.real(0.5, 2);
            for (size_t n = 0; n < N; n++) x[n] = std::polar(a, 2 * M_PI * (double)(k * n % (N ? N : 1)) / (double)N);
            break;
        }
    case 5: // purely imaginary
        for (auto& v : x) v = cd(0, s.real(-2, 2));
        break;
    default: // dense; one draw seeds the values of a long signal
        if (N <= 40) { for (auto& v : x) v = cd(s.real(-10, 10), s.real(-10, 10)); }
        else
        {
            uint64_t z = s.draw(UINT64_MAX - 1) + 1;
            for (auto& v : x)
            {
                double p[2];
                for (double& q : p)
                {
                    z ^= z << 13; z ^= z >> 7; z ^= z << 17;
                    q = (double)(z >> 11) / (double)(1ull << 53) * 20 - 10;
                }
                v = cd(p[0], p[1]);
            }
        }
    }
    if (e) for (auto& v : x) v *= sc;
    return x;
}
// a long signal of a few values that are not 0, and its transform
struct Sparse
{
    std::vector<std::pair<size_t, cd>> at;
    Sig x;
    Sparse(pbt::Src& s, size_t N) : x(N)
    {
        for (int i = s.range(1, 4); i > 0; i--)
        {
            size_t p = s.chance(0.3) ? N - 1 - s.index(std::min<size_t>(N, 4)) : s.index(N);
            cd v(s.range(-5, 5), s.range(-5, 5));
            x[p] += v;
            at.push_back({p, v});
        }
    }
    std::vector<cl> transform(int sign) const
    {
        size_t N = x.size();
        std::vector<cl> tw(N), r(N);
        for (size_t j = 0; j < N; j++)
        {
            long double a = 2 * PI_L * (long double)j / (long double)N;
            tw[j] = cl(cosl(a), sign * sinl(a));
        }
        for (auto& e : at)
            for (size_t k = 0, j = 0; k < N; k++, j = (j + e.first) % N) r[k] += cl(e.second) * tw[j];
        return r;
    }
};
inline int huge_len(pbt::Src& s, int hi)
{
    int e = s.range(12, 17), v = s.chance(0.5) ? (1 << e) + s.range(-1, 1) : s.range(2000, hi);
    return std::min(v, hi);
}
inline int nonzeros(const Sig& x) { int c = 0; for (auto& v : x) c += v != cd(0, 0); return c; }
#endif
