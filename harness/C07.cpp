// C07: the wavelet-sample cache never changes a result.
#include "wavelets.h"
#include <k52/dsp/transform/wavelet/fast_wavelet_transform.h>
using namespace pbt;
using namespace k52::dsp;

struct UserScale : IScale
{
    std::vector<double> v;
    std::vector<double> GetScales() const override { return v; }
};

static void history(Src& s)
{
    // one entry is about 100 bytes of accounted size
    double limit;
    int lk = s.range(0, 4);
    if (lk <= 1) limit = 100;
    else if (lk == 2) limit = (s.range(0, 12) + 0.5) * 104 / 1048576.0;
    else if (lk == 3) limit = s.range(0, 12) * 104 / 1048576.0 + 1e-12;
    else limit = s.flip() ? 0 : -s.real(0, 5);
    bool ample = limit >= 100, none = limit <= 0;
    s.note("limit (MB)", limit);
    s.label(none ? "no cache" : ample ? "ample" : "tight");

    struct T { size_t N; UserScale* sc; boost::shared_ptr<FastWaveletTransform> cached; };
    std::vector<T> ts;
    int nt = s.range(1, 2);
    for (int i = 0; i < nt; i++)
    {
        T t;
        t.N = (size_t)s.range(2, 24);
        if (i && s.flip()) t.N = ts[0].N;
        t.sc = new UserScale;
        t.cached.reset(new FastWaveletTransform(IScale::shared_ptr(t.sc), t.N, limit));
        ts.push_back(t);
    }
    // scales that agree in their integer part, their squares, ...
    static const double pool[] = {1, 1.25, 1.5, 2, 2.5, 2.75, 4, 0.5, 0.25, 7, 16, 16.5};
    std::vector<IWavelet::shared_ptr> ws;
    std::vector<std::string> names;
    int steps = s.size(2, 30), repeats = 0, refused = 0, used = 0, replaced = 0;
    std::vector<std::pair<size_t, std::pair<size_t, double>>> seen;
    for (int i = 0; i < steps; i++)
    {
        int op = ws.empty() ? 0 : s.weighted({2, 6, 4, 2});
        if (op == 0 && ws.size() < 4)
        {
            ws.push_back(gen_bumps(s));
            if (s.noting()) s.note() << "new wavelet " << ws.size() - 1 << "\n";
            continue;
        }
        if (op == 3)
        {
            // destroy a wavelet of the user and put another one in its place
            size_t k = s.index(ws.size());
            for (auto it = seen.begin(); it != seen.end();) it = it->second.first == k ? seen.erase(it) : it + 1;
            ws[k].reset();
            ws[k] = gen_bumps(s);
            replaced++;
            if (s.noting()) s.note() << "replace wavelet " << k << "\n";
            continue;
        }
        if (ws.empty()) continue;
        size_t ti = s.index(ts.size());
        T& t = ts[ti];
        size_t wi = s.index(ws.size());
        Sig x = gen_signal(s, t.N);
        std::vector<double> scales;
        int n = op == 1 ? 1 : s.range(0, 4);
        for (int k = 0; k < n; k++)
        {
            double v = pool[s.index(12)];
            // two scales can be very close and still be two
            if (s.chance(0.25)) v *= 1 + (s.flip() ? 1 : -1) * std::pow(10.0, -s.range(2, 9));
            scales.push_back(v);
        }
        for (double v : scales)
        {
            auto key = std::make_pair(ti, std::make_pair(wi, v));
            if (std::find(seen.begin(), seen.end(), key) != seen.end()) repeats++;
            else seen.push_back(key);
        }
        if (s.noting()) s.note() << (op == 1 ? "one scale" : "transform") << " on object " << ti << " (N=" << t.N << ") wavelet " << wi << " scales " << show(scales) << " signal " << show(x) << "\n";
        std::vector<std::vector<cd>> got;
        bool refused_now = false;
        try
        {
            if (op == 1) got.push_back(t.cached->TransformOneScale(x, ws[wi], scales[0]));
            else { t.sc->v = scales; got = t.cached->Transform(x, ws[wi]); }
        }
        catch (const std::runtime_error& e)
        {
            check(!ample && !none, "refused although the limit is ", limit, " MB: ", std::string(e.what()));
            refused_now = true;
            refused++;
        }
        if (refused_now) continue;
        used++;
        check(got.size() == scales.size(), got.size(), " rows for ", scales.size(), " scales");
        for (size_t k = 0; k < got.size(); k++)
        {
            long double norm;
            std::vector<cl> want = ref_row(x, *ws[wi], scales[k], op == 1, norm);
            expect_close(("step " + std::to_string(i) + ", scale " + show(scales[k])).c_str(), got[k], want, 1e-12L * abs_sum(x) * (norm + 1e-30L));
        }
    }
    if (repeats) { s.nontrivial(); s.label("same wavelet and scale again"); }
    if (refused) s.label("refused");
    if (refused && used) s.label("both refused and answered");
    if (replaced) s.label("wavelet replaced");
}

Property pbt::property()
{
    Property p;
    p.id = "C07";
    p.facets = {{"history", 1, history}};
    p.quick_cases = 50000;
    p.thorough_cases = 1500000;
    p.rule = "Histories of up to 30 steps on one or two cached transforms: full and single-scale transforms of generated signals with up to four generated wavelets (which are destroyed and replaced "
             "at the same address) and scales from a small pool (and very close to its members), under ample, tight (0..12 entries) and non-positive limits; every answer is compared with the formula. Non-trivial: a (wavelet, scale) pair is used again.";
    p.assumptions = {"FFTW plans are made with FFTW_ESTIMATE instead of FFTW_PATIENT", "with an ample limit (100 MB) a refusal is a violation, with a tight one it is allowed"};
    return p;
}
