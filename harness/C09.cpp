// C09: the windowed continuous wavelet transform is the windowed inner product.
#include "wavelets.h"
#include <k52/dsp/cwt.h>
#include <climits>
using namespace pbt;
using namespace k52::dsp;

struct Raw : Wavelet { Raw() {} };   // a wavelet that was not built

static std::vector<double>* g_progress = nullptr;

static void transform(Src& s)
{
    bool many = s.chance(0.03);
    int L = 2 * s.range(1, many ? 6 : s.chance(0.2) ? 100 : 16);       // window length
    int lo = s.range(1, L);
    int count = s.range(1, 6);
    Wavelet::ScaleType type = s.flip() ? Wavelet::Linear : Wavelet::Log;
    std::string wn;
    IWavelet::shared_ptr fn = gen_wavelet(s, wn);
    size_t n = (size_t)(many ? s.range(61, 700) : s.size(0, 60));
    std::vector<double> x(n);
    int k = s.range(0, 2);
    for (auto& v : x) v = k == 0 ? s.range(-5, 5) : k == 1 ? s.real(-10, 10) : (s.chance(0.15) ? 1.0 : 0.0);
    int step = s.chance(0.5) ? 1 : s.range(1, (int)n + 3);
    bool rebuild = s.chance(0.3);
    s.note("window", L); s.note("min length", lo); s.note("count", count); s.note("linear", type == Wavelet::Linear);
    s.note("wavelet", wn); s.note("x", x); s.note("step", step);
    s.label(type == Wavelet::Linear ? "linear" : "log");
    if ((size_t)L > n) s.label("signal shorter than the window");
    if (step > 1) s.label("step > 1");
    bool nz = false;
    for (double v : x) nz = nz || v != 0;
    if (nz && n >= 2) s.nontrivial();

    Wavelet::shared_ptr w;
    if (rebuild)
    {
        // built for something else first
        std::string dummy;
        w = Wavelet::BuildWavelet(gen_wavelet(s, dummy), 2, 2 * s.range(1, 8), s.range(1, 8), s.flip() ? Wavelet::Log : Wavelet::Linear);
        w->base_function(fn);
        w->count(count);
        w->max_lenght(L);
        w->min_lenght(lo);
        w->createWavelet(type);
        s.label("rebuilt");
    }
    else w = Wavelet::BuildWavelet(fn, lo, L, count, type);
    check(w->count() == count && w->max_lenght() == L && w->min_lenght() == lo, "configuration not kept");

    std::vector<double> x0 = x;
    std::vector<std::vector<double>> r = ContiniousWaveletTransformation(x, w, step);
    check(x == x0, "the input was modified");
    size_t rows = n == 0 ? 0 : (n - 1) / (size_t)step + 1;
    check(r.size() == rows, r.size(), " rows for ", n, " samples and step ", step);
    std::vector<long double> scale((size_t)count);
    for (int i = 0; i < count; i++)
        scale[(size_t)i] = type == Wavelet::Log ? powl((long double)L / lo, (long double)i / count) : (long double)(i + 1) / count * ((long double)L / lo);
    bool bumpy = wn == "haar";
    for (int i = 0; i < count; i++)
    {
        std::vector<cl> psi((size_t)L), alt((size_t)L);
        bool fuzzy = false;
        for (int j = 0; j < L; j++)
        {
            double t = (double)((j - L / 2) * scale[(size_t)i] * 4 / (L / 2));
            psi[(size_t)j] = cl(fn->GetValue(t));
            if (bumpy)
            {
                // Haar jumps: skip scales with an argument within rounding of a jump
                // (and all of them count when the arithmetic does not have to be exact)
                bool exact = type == Wavelet::Linear && L % lo == 0 && !(L & (L - 1)) && !(count & (count - 1));
                for (double b : {-0.5, -0.25, 0.0, 0.25, 0.5, 0.75})
                    if (j != L / 2 && std::fabs(t - b) < 1e-12 && !exact) fuzzy = true;
            }
        }
        if (fuzzy) { s.label("haar scale skipped"); continue; }
        for (size_t q = 0; q < rows; q++)
        {
            check(r[q].size() == (size_t)count, "row ", q, " has ", r[q].size(), " values");
            long double re = 0, im = 0, norm = 0;
            for (int j = 0; j < L; j++)
            {
                long long at = (long long)q * step + j - L / 2;
                if (at < 0 || at >= (long long)n) continue;
                long double v = x[(size_t)at];
                re += v * psi[(size_t)j].real();
                im += v * psi[(size_t)j].imag();
                norm += fabsl(v) * (hypotl(psi[(size_t)j].real(), psi[(size_t)j].imag()) + 1e-3L);
            }
            long double want = hypotl(re, im);
            check(fabsl(r[q][(size_t)i] - want) <= 1e-11L * norm, "row ", q, " scale ", i, " is ", r[q][(size_t)i], ", expected ", (double)want);
        }
    }
    // the variant with a progress report
    std::vector<double> progress;
    g_progress = &progress;
    std::vector<std::vector<double>> r2 = ContiniousWaveletTransformation(x, w, step, [](double p) { g_progress->push_back(p); });
    check(r2.size() == r.size(), "the variant with progress gives ", r2.size(), " rows instead of ", r.size());
    double ax = 0;
    for (double v : x) ax += std::fabs(v);
    for (size_t q = 0; q < rows; q++)
    {
        check(r2[q].size() == r[q].size(), "the variant with progress gives other rows");
        for (size_t i = 0; i < r[q].size(); i++)
            check(std::fabs(r2[q][i] - r[q][i]) <= 1e-11 * (ax + r[q][i]), "the variant with progress gives ", r2[q][i], " instead of ", r[q][i], " in row ", q);
    }
    check(progress.size() == rows, progress.size(), " reports for ", rows, " rows");
    for (size_t q = 0; q < rows; q++)
    {
        double want = 100.0 * (double)(q * (size_t)step) / (double)n;
        check(std::fabs(progress[q] - want) <= 1e-9, "report ", q, " is ", progress[q], ", expected ", want);
        check(progress[q] >= 0 && progress[q] < 100 && (q == 0 || progress[q] >= progress[q - 1]), "reports not in order");
    }
    // and again: no history
    check(ContiniousWaveletTransformation(x, w, step) == r, "a second transform differs");
}

static void rejects(Src& s)
{
    s.nontrivial();
    std::vector<double> x((size_t)s.range(1, 10), 1.0);
    bool any = false;
    boost::shared_ptr<Wavelet> raw(new Raw);
    s.note("n", x.size());
    try { ContiniousWaveletTransformation(x, raw, 1); } catch (...) { any = true; }
    check(any, "a wavelet that was not built is accepted");
    any = false;
    try { Wavelet::BuildWavelet(IWavelet::shared_ptr(), 2, 8, 2); } catch (...) { any = true; }
    check(any, "a wavelet without a function is accepted");
    // a step that leads nowhere
    std::string wn;
    int step = s.flip() ? 0 : -(int)s.range(1, 5);
    s.note("step", step);
    if (s.chance(0.1)) step = INT_MIN;
    boost::shared_ptr<Wavelet> built = Wavelet::BuildWavelet(gen_wavelet(s, wn), 2, 8, 2);
    must_throw<std::invalid_argument>("a step that is not positive", [&] { ContiniousWaveletTransformation(x, built, step); });
    long calls = 0;
    must_throw<std::invalid_argument>("a step that is not positive, with reports", [&] { ContiniousWaveletTransformation(x, built, step, [&](double) { if (++calls > 1000) throw std::runtime_error("endless"); }); });
    check(calls == 0, "a refused call reports");
}

Property pbt::property()
{
    Property p;
    p.id = "C09";
    p.facets = {{"transform", 30, transform}, {"rejects", 1, rejects}};
    p.quick_cases = 60000;
    p.thorough_cases = 2500000;
    p.rule = "Generated signals (0..60 samples, also shorter than the window), even windows 2..200, shortest lengths, 1..6 scales of both kinds, steps beyond the signal and wavelet functions, fresh and rebuilt wavelets; "
             "every value compared with the inner product in long double; progress variant compared. Non-trivial: two or more samples, not all zero.";
    p.assumptions = {"window lengths are even", "Haar scales that put a sample within rounding of a jump are not compared (labelled)"};
    return p;
}
