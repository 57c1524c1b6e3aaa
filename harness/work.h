// Pieces of work with objects of their own (C35, C37).
#ifndef WORK_H
#define WORK_H
#include "opt_config.h"
#include "params.h"
#include "dsp_util.h"
#include "fftw_watch.h"
#include <fstream>
#include <functional>
#include <thread>
#include <unistd.h>
#include <k52/common/cache.h>
#include <k52/common/floating_point.h>
#include <k52/common/helpers.h>
#include <k52/common/settings_manager.h>
#include <k52/dsp/akima_spline.h>
#include <k52/dsp/akima_wavelet_function.h>
#include <k52/dsp/cwt.h>
#include <k52/dsp/haar_wavelet_function.h>
#include <k52/dsp/mhat_wavelet_function.h>
#include <k52/dsp/morlet_wavelet_function.h>
#include <k52/dsp/transform/circular_convolution.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/fourier_based_circular_convolution.h>
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/inverse_fourier_transform.h>
#include <k52/dsp/transform/wavelet/fast_wavelet_transform.h>
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
#include <k52/parallel/worker_pool_factory.h>

namespace work
{
using namespace pbt;
using namespace k52::dsp;
// What was seen: numbers and names of what happened, in order.
struct Transcript
{
    std::vector<double> numbers;
    std::vector<std::string> events;
    void operator()(double v) { numbers.push_back(v); }
    void operator()(const std::vector<double>& v) { numbers.push_back((double)v.size()); numbers.insert(numbers.end(), v.begin(), v.end()); }
    void operator()(const Sig& v) { for (auto& e : v) { numbers.push_back(e.real()); numbers.push_back(e.imag()); } }
    void operator()(const std::string& e) { events.push_back(e); }
};

// A piece of work with objects of its own, which can be done any number of times.
struct Job
{
    std::string name, text;
    typedef std::function<void(Transcript&)> Use;
    std::function<Use()> make;     // makes the objects; what it returns uses them
    void run(Transcript& t) const { make()(t); }
    double tolerance = 0;          // of results, relative to the largest
};

// ---- optimization
class Objective : public opt::ContinuousObjectiveFunction
{
public:
    Objective(const opt::Function& f, long most) : f_(f), most_(most) {}
    using ContinuousObjectiveFunction::operator();
    virtual double operator()(const std::vector<double>& x) const
    {
        if (calls_++ >= most_) throw opt::TooLong();
        double v = f_(x);
        sum_ = sum_ * 0.5 + v;
        return v;
    }
    virtual Objective* Clone() const { return new Objective(f_, most_); }
    mutable long calls_ = 0;
    mutable double sum_ = 0;
private:
    opt::Function f_;
    long most_;
};

inline Job optimise(Src& s)
{
    Job j;
    conf::Config c = conf::gen_config(s, conf::HJ, conf::RB);
    typedef opt::Function F;
    opt::Function f = opt::gen_function(s, {F::Quadratic, F::Absolute, F::Rosenbrock, F::Waves, F::Peaks, F::Steps, F::Plateau, F::Rough, F::Constant});
    opt::Point start;
    for (int i = s.range(1, 4); i > 0; i--) start.push_back(opt::simple_real(s, 10));
    bool maximize = s.flip(), clone = s.chance(0.3);
    j.name = conf::kNames[c.k];
    j.text = c.text() + " on " + f.text() + " from " + show(start);
    j.make = [=]() -> Job::Use
    {
        opt::ContinuousOptimizer::shared_ptr o = c.make();
        if (clone) o.reset(o->Clone());
        return [=](Transcript& t)
        {
            opt::ContinuousParametersArray p(start);
            Objective g(f, 400);
            try { o->Optimize(g, &p, maximize); t("done"); }
            catch (const std::exception& e) { t(std::string(e.what())); }
            t(p.GetValues());
            t((double)g.calls_);
            t(g.sum_);
        };
    };
    return j;
}

// ---- discrete parameters
inline Job parameters(Src& s)
{
    Job j;
    par::Desc d = par::gen(s, 2, 24);
    uint64_t seed = s.draw(0xffffffff);
    int rounds = s.range(1, 10);
    j.name = "parameters";
    j.text = par::text(d) + ", " + std::to_string(rounds) + " chromosomes";
    j.make = [=]() -> Job::Use
    {
        par::IDiscreteParameters::shared_ptr own = par::make(d);
        return [=](Transcript& t)
        {
            uint64_t st = seed;
            par::IDiscreteParameters::shared_ptr p(own->Clone());
            t(par::values(p.get()));
            t(par::bits(par::chromosome(p.get())));
            for (int i = 0; i < rounds; i++)
            {
                par::ChromosomeType c(p->GetChromosomeSize());
                for (size_t k = 0; k < c.size(); k++) { st = st * 6364136223846793005ull + 1442695040888963407ull; c[k] = st >> 63; }
                p->SetFromChromosome(c.begin(), c.end());
                t(par::values(p.get()));
                t(p->CheckConstraints() ? "valid" : "invalid");
                par::IDiscreteParameters::shared_ptr q(p->Clone());
                if (p->CheckConstraints()) t(par::bits(par::chromosome(q.get())));
                p = q;
            }
        };
    };
    return j;
}

// ---- splines and wavelet functions
inline std::vector<double> gen_values(Src& s, int lo, int hi)
{
    std::vector<double> v;
    for (int i = s.range(lo, hi); i > 0; i--) v.push_back(s.flip() ? s.range(-5, 5) : s.real(-10, 10));
    return v;
}

inline Job spline(Src& s)
{
    Job j;
    std::vector<std::vector<double>> x, y, at;
    for (int k = s.range(1, 3); k > 0; k--)
    {
        std::vector<double> v = gen_values(s, 3, 20), u(v.size()), a;
        double from = s.real(-5, 5);
        for (auto& e : u) { e = from; from += s.flip() ? 1 : s.real(0.1, 3); }
        for (int i = s.range(1, 20); i > 0; i--) a.push_back(u[0] + (u.back() - u[0]) * (s.unit() * 1.1));
        x.push_back(u); y.push_back(v); at.push_back(a);
    }
    j.name = "spline";
    j.text = show(y);
    j.make = [=]() -> Job::Use
    {
        AkimaSpline::shared_ptr p = AkimaSpline::Create();
        return [=](Transcript& t)
        {
            for (size_t k = 0; k < x.size(); k++)
            {
                try { p->Initialize(x[k], y[k]); }
                catch (const std::invalid_argument&) { t("refused"); continue; }
                for (double a : at[k])
                    try { t(p->Value(a)); } catch (const std::out_of_range&) { t("outside"); }
            }
        };
    };
    return j;
}

inline Job function(Src& s)
{
    Job j;
    int kind = s.range(0, 3);
    std::vector<double> samples = gen_values(s, 4, 30), at;
    for (int i = s.range(1, 40); i > 0; i--) at.push_back(s.real(-5, 5));
    j.name = "wavelet function";
    j.text = std::to_string(kind) + " " + show(samples);
    j.make = [=]() -> Job::Use
    {
        IWavelet::shared_ptr w;
        switch (kind)
        {
        case 0: w.reset(new MorletWaveletFunction()); break;
        case 1: w.reset(new HaarWaveletFunction()); break;
        case 2: w.reset(new MhatWaveletFunction()); break;
        default: w = AkimaWavelet::CreateAkimaWavelet(samples, samples);
        }
        return [=](Transcript& t)
        {
            for (double a : at) { cd v = w->GetValue(a); t(v.real()); t(v.imag()); }
        };
    };
    return j;
}

inline IWavelet::shared_ptr wavelet(int kind)
{
    switch (kind)
    {
    case 0: return IWavelet::shared_ptr(new MorletWaveletFunction());
    case 1: return IWavelet::shared_ptr(new HaarWaveletFunction());
    default: return IWavelet::shared_ptr(new MhatWaveletFunction());
    }
}

// ---- transforms
inline Job continuous(Src& s)
{
    Job j;
    std::vector<double> x = gen_values(s, 1, 40);
    int lo = s.range(1, 4), L = 2 * s.range(lo, 12), count = s.range(2, 6), step = s.range(1, 4), kind = s.range(0, 2);
    Wavelet::ScaleType type = s.flip() ? Wavelet::Linear : Wavelet::Log;
    j.name = "windowed transform";
    j.text = "window " + std::to_string(L) + " of " + show(x);
    j.make = [=]() -> Job::Use
    {
        Wavelet::shared_ptr w = Wavelet::BuildWavelet(wavelet(kind), lo, L, count, type);
        return [=](Transcript& t)
        {
            for (auto& r : ContiniousWaveletTransformation(x, w, step)) t(r);
        };
    };
    return j;
}

inline Job fast_wavelet(Src& s)
{
    Job j;
    Sig x = gen_signal(s, (size_t)s.range(1, 40), 0);
    int kind = s.range(0, 2), count = s.range(2, 5), rounds = s.range(1, 3);
    bool linear = s.flip();
    double cache = s.pick(std::vector<double>{-1, 10, 0.0005}), one = s.real(0.5, 5);
    j.name = "fast wavelet transform";
    j.text = "cache " + show(cache) + ": " + show(x);
    j.tolerance = 1e-10;
    j.make = [=]() -> Job::Use
    {
        IScale::shared_ptr scale = linear ? IScale::shared_ptr(new LinearScale(1, 4, count)) : IScale::shared_ptr(new LogarithmicScale(0, count));
        boost::shared_ptr<FastWaveletTransform> f(new FastWaveletTransform(scale, x.size(), cache));
        IWavelet::shared_ptr w = wavelet(kind);
        return [=](Transcript& t)
        {
            for (int i = 0; i < rounds; i++)
            {
                try
                {
                    for (auto& r : f->Transform(x, w)) t(r);
                    t(f->TransformOneScale(x, w, one));
                }
                catch (const std::exception& e) { t("refused"); }
            }
        };
    };
    return j;
}

inline Job fourier(Src& s)
{
    Job j;
    size_t N = (size_t)s.range(1, 48);
    Sig x = gen_signal(s, N, 0), y = gen_signal(s, N, 0);
    int kind = s.range(0, 3), rounds = s.range(1, 3);
    bool fast = s.flip();
    j.name = fast ? "fast Fourier transform" : "Fourier transform";
    j.text = std::to_string(kind) + " of " + show(x);
    j.tolerance = fast ? 1e-10 : 0;
    j.make = [=]() -> Job::Use
    {
        auto create = [=] { return fast ? IFourierTransform::shared_ptr(new FastFourierTransform(N)) : IFourierTransform::shared_ptr(new FourierTransform()); };
        IFourierTransform::shared_ptr own = create();
        boost::shared_ptr<InverseFourierTransform> inverse(new InverseFourierTransform(own));
        boost::shared_ptr<FourierBasedCircularConvolution> convolution(new FourierBasedCircularConvolution(own));
        return [=](Transcript& t)
        {
            for (int i = 0; i < rounds; i++)
            {
                switch (kind + (i ? 10 : 0))
                {
                case 0: t(own->Transform(x)); break;
                case 1: t(inverse->Transform(x)); break;
                case 2: t(convolution->EvaluateConvolution(x, y)); break;
                // others of the same length
                case 10: t(create()->Transform(x)); break;
                case 11: t(InverseFourierTransform(create()).Transform(x)); break;
                case 12: t(FourierBasedCircularConvolution(create()).EvaluateConvolution(x, y)); break;
                default: t(CircularConvolution().EvaluateConvolution(x, y)); t(k52::common::Helpers::Conjugate(x));
                }
            }
        };
    };
    return j;
}

// ---- common
inline Job cache(Src& s)
{
    Job j;
    typedef k52::common::Cache<std::vector<bool>, double> C;
    std::vector<std::pair<int, double>> ops;      // a value to put, or a question
    for (int i = s.range(1, 40); i > 0; i--) ops.push_back({s.range(0, 9), s.flip() ? s.range(0, 100) : -1});
    double limit = s.pick(std::vector<double>{1, 0.0004, 0.001});
    j.name = "cache";
    j.text = show(limit) + " MB, " + std::to_string(ops.size()) + " steps";
    j.make = [=]() -> Job::Use
    {
        C::shared_ptr c = C::Create(limit);
        return [=](Transcript& t)
        {
            for (auto& o : ops)
            {
                std::vector<bool> key;
                for (int i = o.first + 1; i; i >>= 1) key.push_back(i & 1);
                try
                {
                    if (o.second >= 0) c->AddValues(std::vector<C::CacheRecord>(1, C::CacheRecord(key, o.second)));
                    else if (c->IsCached(key)) t(c->GetCachedValue(key));
                    else t("none");
                }
                catch (const std::exception& e) { t("refused"); }
            }
        };
    };
    return j;
}

inline Job settings(Src& s)
{
    Job j;
    static const std::vector<std::string> names = {"a", "a.b", "b", "b.c.d", "key"};
    std::vector<std::pair<std::string, double>> puts;
    for (int i = s.range(1, 10); i > 0; i--) puts.push_back({s.pick(names), s.flip() ? s.range(-50, 50) : s.real(-10, 10)});
    std::vector<std::string> args;
    for (int i = s.range(0, 4); i > 0; i--) args.push_back("--" + s.pick(names) + "=" + std::to_string(s.range(0, 99)));
    bool file = s.chance(0.3);
    j.name = "settings";
    j.text = show(args);
    j.make = [=]() -> Job::Use
    {
        std::vector<const char*> argv(1, "program");
        for (auto& a : args) argv.push_back(a.c_str());
        boost::shared_ptr<k52::SettingsManager> m(new k52::SettingsManager((int)argv.size(), &argv[0]));
        return [=](Transcript& t)
        {
            auto ask = [&](k52::SettingsManager& m)
            {
                for (auto& n : names) { t(m.get<double>(n, -1.5)); t(m.get<std::string>(n, "none")); }
                try { t(m.get<int>("key")); } catch (const std::exception&) { t("none"); }
            };
            ask(*m);
            for (auto& p : puts) { if (!m->put(p.first, p.second)) t("not put"); t(m->get<double>(p.first)); }
            ask(*m);
            if (file)
            {
                static std::atomic<int> number{0};
                std::string name = "settings-" + std::to_string(number.fetch_add(1, std::memory_order_relaxed)) + ".xml";
                { std::ofstream o(name); o << "<a>1.25<b>x</b></a><key>7</key>"; }
                k52::SettingsManager r{std::string(name)};
                ask(r);
                unlink(name.c_str());
                try { k52::SettingsManager none(std::string("none.xml")); t("read"); } catch (const std::exception&) { t("no file"); }
            }
        };
    };
    return j;
}

// ---- worker pools of one's own
struct Number : public k52::parallel::ITaskResult { explicit Number(double v) : v(v) {} double v; };
struct Square : public k52::parallel::ITask
{
    double v;
    virtual k52::parallel::ITaskResult* Perform() const { if (v == 13) throw std::runtime_error("thirteen"); return new Number(v * v); }
};
inline Job pool(Src& s)
{
    Job j;
    std::vector<std::vector<double>> batches;
    for (int i = s.range(1, 3); i > 0; i--) { batches.emplace_back(); for (int k = s.range(0, 12); k > 0; k--) batches.back().push_back(s.range(-20, 20)); }
    bool sequential = s.chance(0.3);
    j.name = "worker pool";
    j.text = show(batches);
    j.make = [=]() -> Job::Use
    {
        using namespace k52::parallel;
        IWorkerPool::shared_ptr p = sequential ? WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool) : WorkerPoolFactory::CreateBestWorkerPool();
        return [=](Transcript& t)
        {
            for (auto& b : batches)
            {
                std::vector<Square> tasks(b.size());
                std::vector<const ITask*> list;
                for (size_t i = 0; i < b.size(); i++) { tasks[i].v = b[i]; list.push_back(&tasks[i]); }
                try { for (auto& r : p->DoTasks(list)) t(dynamic_cast<const Number&>(*r).v); }
                catch (const std::exception& e) { t(std::string(e.what())); }
            }
        };
    };
    return j;
}

class Grid : public k52::optimization::GridSearch
{
public:
    Grid(double p, double lo, double hi) : GridSearch(p, lo, hi) {}
    using GridSearch::Optimize;
    virtual void Optimize(const k52::optimization::IObjectiveFunction& f, k52::optimization::IParameters* p, bool) { GridSearch::Optimize(f, p); }
};
class Plain : public opt::ContinuousObjectiveFunction
{
public:
    explicit Plain(const opt::Function& f) : f_(f) {}
    using ContinuousObjectiveFunction::operator();
    virtual double operator()(const std::vector<double>& x) const { return f_(x); }
    virtual Plain* Clone() const { return new Plain(f_); }
private:
    opt::Function f_;
};
inline Job grid(Src& s)
{
    Job j;
    typedef opt::Function F;
    opt::Function f = opt::gen_function(s, {F::Quadratic, F::Absolute, F::Waves, F::Hash, F::Steps});
    size_t dim = (size_t)s.range(1, 2);
    double lo = s.range(-5, 5), hi = lo + s.range(1, 6);
    j.name = "grid search";
    j.text = f.text();
    j.make = [=]() -> Job::Use
    {
        boost::shared_ptr<Grid> g(new Grid(1, lo, hi));
        return [=](Transcript& t)
        {
            opt::ContinuousParametersArray p(opt::Point(dim, 0.0));
            g->Optimize(Plain(f), &p);
            t(p.GetValues());
        };
    };
    return j;
}

}
#endif
