// C04: transform objects are independent of each other, of history and of other threads.
#include "dsp_util.h"
#include "fftw_watch.h"
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/inverse_fourier_transform.h>
#include <k52/dsp/transform/circular_convolution.h>
#include <k52/dsp/transform/fourier_based_circular_convolution.h>
#include <boost/thread.hpp>
#include <boost/thread/barrier.hpp>
#include <memory>
using namespace pbt;
using namespace k52::dsp;

struct Obj
{
    size_t N = 0;
    boost::shared_ptr<IFourierTransform> t;
    boost::shared_ptr<InverseFourierTransform> inv;
    boost::shared_ptr<FourierBasedCircularConvolution> conv;
};

static Obj make(size_t N)
{
    Obj o;
    o.N = N;
    o.t.reset(new FastFourierTransform(N));
    o.inv.reset(new InverseFourierTransform(o.t));
    o.conv.reset(new FourierBasedCircularConvolution(o.t));
    return o;
}

static void use(const Obj& o, int how, const Sig& x, const Sig& y, const std::vector<cl>& X, const std::vector<cl>& Xi, const std::vector<cl>& C)
{
    switch (how)
    {
    case 0: expect_close("transform", o.t->Transform(x), X, 1e-13L * abs_sum(x)); break;
    case 1: expect_close("inverse", o.inv->Transform(x), Xi, 1e-13L * abs_sum(x)); break;
    default: expect_close("convolution", o.conv->EvaluateConvolution(x, y), C, 1e-12L * abs_sum(x) * abs_sum(y));
    }
}
static std::vector<cl> inv_of(const Sig& x)
{
    auto r = ref_dft(x, +1);
    for (auto& v : r) v /= (long double)x.size();
    return r;
}
static std::vector<cl> conv_of(const Sig& x, const Sig& y)
{
    std::vector<cl> w(x.size());
    for (size_t m = 0; m < x.size(); m++)
        for (size_t q = 0; q < x.size(); q++) w[(m + q) % x.size()] += cl(x[m]) * cl(y[q]);
    return w;
}

static void history(Src& s)
{
    std::vector<Obj> live;
    int steps = s.size(1, 40), creations = 0, uses = 0, drops = 0;
    for (int i = 0; i < steps; i++)
    {
        int op = s.weighted({3, 8, 2, 2});
        if (live.empty()) op = 0;
        if (op == 0)
        {
            // sizes collide on purpose
            size_t N = live.empty() || s.flip() ? (size_t)gen_len(s, 48) : live[s.index(live.size())].N;
            if (live.size() >= 6) continue;
            live.push_back(make(N));
            creations++;
            if (s.noting()) s.note() << "create " << N << "\n";
        }
        else if (op == 1)
        {
            size_t k = s.index(live.size());
            int how = s.range(0, 2);
            Sig x = gen_signal(s, live[k].N), y = how == 2 ? gen_signal(s, live[k].N) : x;
            if (s.noting()) s.note() << "use object " << k << " (size " << live[k].N << ") for " << how << ": " << show(x) << (how == 2 ? show(y) : "") << "\n";
            use(live[k], how, x, y, how == 0 ? ref_dft(x) : std::vector<cl>(), how == 1 ? inv_of(x) : std::vector<cl>(), how == 2 ? conv_of(x, y) : std::vector<cl>());
            uses++;
        }
        else if (op == 2)
        {
            size_t k = s.index(live.size());
            size_t M = (size_t)s.range(0, 60);
            if (M == live[k].N) M++;
            if (s.noting()) s.note() << "misuse object " << k << " (size " << live[k].N << ") with " << M << " values\n";
            Sig x = gen_signal(s, M);
            must_throw<std::invalid_argument>("wrong length", [&] { live[k].t->Transform(x); });
        }
        else
        {
            size_t k = s.index(live.size());
            if (s.noting()) s.note() << "destroy object " << k << "\n";
            live.erase(live.begin() + (long)k);
            drops++;
        }
    }
    if (creations >= 2 && uses >= 2) s.nontrivial();
    if (drops && uses) s.label("use around a destruction");
}

static void threads(Src& s)
{
    int T = s.range(2, 6);
    int rounds = s.range(1, 5);
    bool linger = s.chance(0.7);
    struct Plan { std::vector<size_t> n; std::vector<Sig> x; std::vector<std::vector<cl>> X; std::vector<int> reuse; };
    std::vector<Plan> plans((size_t)T);
    for (auto& p : plans)
        for (int r = 0; r < rounds; r++)
        {
            size_t N = (size_t)gen_len(s, 40);
            Sig x = gen_signal(s, N);
            p.n.push_back(N); p.x.push_back(x); p.X.push_back(ref_dft(x)); p.reuse.push_back(s.range(1, 3));
        }
    if (s.noting())
    {
        s.note() << T << " threads, sizes:\n";
        for (auto& p : plans) { s.note() << "  "; s.note() << show(p.n) << "\n"; }
    }
    s.nontrivial();
    fftw_watch::overlaps = 0;
    fftw_watch::linger_us = linger ? 60 : 0;
    std::vector<std::string> errs((size_t)T);
    boost::barrier start((unsigned)T);
    {
        boost::thread_group g;
        for (int t = 0; t < T; t++)
            g.create_thread([&, t]
            {
                start.wait();
                try
                {
                    Plan& p = plans[(size_t)t];
                    for (size_t r = 0; r < p.n.size(); r++)
                    {
                        FastFourierTransform f(p.n[r]);
                        for (int q = 0; q < p.reuse[r]; q++)
                        {
                            expect_close("transform in a thread", f.Transform(p.x[r]), p.X[r], 1e-13L * abs_sum(p.x[r]));
                            boost::this_thread::yield();
                        }
                    }
                }
                catch (const Failure& f) { errs[(size_t)t] = f.msg; }
                catch (const std::exception& e) { errs[(size_t)t] = e.what(); }
            });
        g.join_all();
    }
    fftw_watch::linger_us = 0;
    for (auto& e : errs) check(e.empty(), "in a thread: ", e);
    check(fftw_watch::overlaps == 0, "the planner was entered by several threads at once, ", fftw_watch::overlaps.load(), " times");
}

Property pbt::property()
{
    Property p;
    p.id = "C04";
    p.facets = {{"history", 8, history}, {"threads", 1, threads}};
    p.quick_cases = 30000;
    p.thorough_cases = 600000;
    p.batch = 100;
    p.nondeterministic = true;
    p.rule = "Histories of up to 40 steps creating, using (transform, inverse, convolution), misusing and destroying up to 6 live objects of colliding sizes, each use compared with a long double DFT; "
             "and 2..6 threads that each create, use and destroy their own objects while the planner entry is watched. Non-trivial: at least two objects and two uses, or several threads.";
    p.assumptions = {"FFTW plans are made with FFTW_ESTIMATE instead of FFTW_PATIENT", "thread schedules are whatever the machine does, widened by a pause inside the watched planner"};
    return p;
}
