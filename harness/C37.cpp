// C37: what the library acquires it gives back.
#include "work.h"
#include "ga_util.h"
#include <dirent.h>
#include <k52/optimization/individual.h>
using namespace pbt;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
using work::Job;
using work::Transcript;

namespace
{
// ---- what can be held
std::atomic<long> g_blocks{0}, g_bytes{0}, g_objects{0};
void on_malloc(const volatile void* p, size_t n)
{
    g_blocks.fetch_add(1, std::memory_order_relaxed);
    g_bytes.fetch_add((long)n, std::memory_order_relaxed);
}
void on_free(const volatile void* p)
{
    if (!p) return;
    g_blocks.fetch_sub(1, std::memory_order_relaxed);
    g_bytes.fetch_sub((long)__sanitizer_get_allocated_size(p), std::memory_order_relaxed);
}
// counts the objects of the user's
struct Alive
{
    Alive() { g_objects++; }
    Alive(const Alive&) { g_objects++; }
    Alive& operator=(const Alive&) { return *this; }
    ~Alive() { g_objects--; }
};

long entries(const char* dir)
{
    DIR* d = opendir(dir);
    long n = 0;
    while (readdir(d)) n++;
    closedir(d);
    return n - 2;
}
enum Measure { Blocks, Bytes, Objects, Plans, Threads, Files, Measures };
const char* const kMeasure[] = {"blocks of memory", "bytes of memory", "objects of the user", "Fourier plans", "threads", "open files"};
struct Held
{
    long v[Measures];
    static Held now(const Held* before)
    {
        Held h;
        h.v[Threads] = entries("/proc/self/task");
        // a thread that has been joined may still be on its way out
        for (int i = 0; before && h.v[Threads] > before->v[Threads] && i < 2000; i++) { usleep(1000); h.v[Threads] = entries("/proc/self/task"); }
        h.v[Files] = entries("/proc/self/fd") - 1;
        h.v[Blocks] = g_blocks; h.v[Bytes] = g_bytes; h.v[Objects] = g_objects; h.v[Plans] = fftw_watch::alive;
        return h;
    }
};

// Does it again and again, as long as something grows whenever the number of times doubles (as
// what grows by ever larger steps does, too). Objects of the user, plans, threads and files are to
// be as many as before at once, where all objects have gone.
void steady(Src& s, const char* what, bool all_gone, const std::function<void()>& f)
{
    const int most = 32;
    bool grows[Measures];
    std::fill(grows, grows + Measures, true);
    Held first = Held::now(nullptr), before = first, last = first;
    int done = 0;
    for (int until = 1; until <= most; until *= 2)
    {
        for (; done < until; done++)
        {
            f();
            Held h = Held::now(&last);
            for (int m = Objects; all_gone && m < Measures; m++)
                check(h.v[m] <= last.v[m], what, " leaves ", h.v[m] - last.v[m], " ", pbt::Lit{kMeasure[m]}, " behind");
            last = h;
        }
        bool any = false;
        for (int m = 0; m < Measures; m++)
        {
            grows[m] = grows[m] && last.v[m] > before.v[m];
            any |= grows[m];
        }
        before = last;
        if (!any && until > 1) { if (until > 4) s.label("repeated"); return; }
    }
    for (int m = Measures; m-- > 0; )
        check(!grows[m], what, ", done ", most, " times, has left ", last.v[m] - first.v[m], " ", pbt::Lit{kMeasure[m]}, " behind, ever more");
}

// ---- failures of the user's code
struct Thrown : public std::runtime_error { explicit Thrown(int id) : std::runtime_error("thrown by the user"), id(id) {} int id; Alive alive; };
struct Odd { std::vector<double> v; Alive alive; };
struct Fuse
{
    long at = -1;
    int type = 0;
    std::atomic<long> count{0};
    void step()
    {
        if (count.fetch_add(1) != at) return;
        if (type == 0) throw Thrown(7);
        if (type == 1) { Odd o; o.v.assign(10, 1); throw o; }
        throw 7;
    }
    bool blown() const { return at >= 0 && count > at; }
};
void gen_fuse(Src& s, long& at, int& type, int most, double p)
{
    at = s.chance(p) ? (s.flip() ? s.range(0, std::min(12, most)) : s.size(0, most)) : -1;
    type = s.range(0, 2);
}
std::atomic<bool> g_failed{false};     // something was refused or failed in this case
template<class F> void attempt(F f)
{
    try { f(); }
    catch (const Failure&) { throw; }
    catch (...) { g_failed = true; }
}

// ---- genetic algorithms
class Objective : public ga::DiscreteObjectiveFunction
{
public:
    Objective(ga::Function f, Fuse* fuse) : f_(f), fuse_(fuse) {}
    virtual double operator()(const ga::IDiscreteParameters* const p) const
    {
        fuse_->step();
        std::vector<ga::Leaf> l;
        ga::leaves(p, l);
        return f_(l);
    }
    virtual Objective* Clone() const { return new Objective(f_, fuse_); }
private:
    ga::Function f_;
    Fuse* fuse_;
    Alive alive_;
};
class Mutator : public ga::IMutator
{
public:
    explicit Mutator(ga::IMutator::shared_ptr m) : m_(m) {}
    Fuse* fuse = nullptr;
    virtual void ApplyNewMutationContext(const ga::MutationContext& c) 
    {
        if (ga::Mutator* own = dynamic_cast<ga::Mutator*>(m_.get())) own->contexts.clear();    // it keeps a record
        m_->ApplyNewMutationContext(c);
    }
    virtual void MutateChromosome(ga::ChromosomeType* c) { fuse->step(); m_->MutateChromosome(c); }
private:
    ga::IMutator::shared_ptr m_;
    Alive alive_;
};
// parameters of the user's
class Bit : public ga::IDiscreteParameters
{
public:
    explicit Bit(int v, Fuse* f) : v_(v), fuse_(f) {}
    virtual bool CheckConstraints() const { return true; }
    virtual size_t GetChromosomeSize() const { return 3; }
    virtual void SetFromChromosome(ga::ChromosomeType::const_iterator f, ga::ChromosomeType::const_iterator t) { if (fuse_) fuse_->step(); v_ = 0; while (f != t) v_ = v_ * 2 + *f++; }
    virtual void SetChromosome(ga::ChromosomeType::iterator f, ga::ChromosomeType::iterator t) const { for (int k = 2; f != t; k--) *f++ = (v_ >> k) & 1; }
    virtual bool HasSameMetaParameters(const IDiscreteParameters* p) const { return dynamic_cast<const Bit*>(p) != nullptr; }
    virtual Bit* Clone() const { if (fuse_) fuse_->step(); return new Bit(v_, fuse_); }
private:
    int v_;
    Fuse* fuse_;
    Alive alive_;
};
Fuse* g_report;
std::string g_file;
int g_save;
std::vector<std::shared_ptr<ga::GenerationStatistics>> g_kept;
void on_report(ga::GenerationStatistics st)
{
    g_report->step();
    if (g_kept.size() < 2) g_kept.push_back(std::make_shared<ga::GenerationStatistics>(st)); else *g_kept[0] = st;
    if (g_save == 1) st.SaveCurrentPopulationToFile(g_file);
    if (g_save == 2) st.SaveCurrentPopulationToFile("none/none");
}

Job genetic(Src& s)
{
    Job j;
    ga::Config c;
    do { c = ga::gen_config(s, 12, 6); } while (ga::leaf_count(c.d) == 0);
    c.cache = s.pick(std::vector<double>{0, 0, 5, 0.0005});
    if (s.chance(0.2)) c.stop = s.unit();
    int where = s.range(0, 3), save = s.weighted({4, 2, 1}), load = s.weighted({6, 3, 1, 1, 1}), runs = s.range(1, 3), initial = s.weighted({5, 2, 1, 1}), wrong = s.chance(0.1) ? s.range(1, 2) : 0;
    long at; int type;
    gen_fuse(s, at, type, where == 2 ? c.generations : c.population * c.generations, 0.6);
    bool user = s.chance(0.2);
    unsigned processors = s.chance(0.7) ? 1 : (unsigned)s.range(2, 4);
    uint64_t seed = s.draw(0xffffffff) * 0x9e3779b97f4a7c15ULL + 1;
    ga::Function f = ga::gen_function(s);
    std::string file = "population-" + std::to_string(getpid());
    auto tear = [=](double share)
    {
        std::ifstream in(file); std::stringstream b; b << in.rdbuf();
        std::string t = b.str();
        std::ofstream(file) << t.substr(0, (size_t)(t.size() * share)) << " x";
    };
    j.name = "genetic algorithm";
    std::ostringstream o;
    o << ga::text(c.d) << (user ? " and parameters of the user" : "") << ", " << c.text() << ", function " << f.name() << ", runs " << runs << ", throws in " << where << " at " << at << " type " << type << ", save " << save
      << ", load " << load << ", initial " << initial << ", wrong " << wrong << ", processors " << processors;
    j.text = o.str();
    rc::begin(s, true);
    rc::Image pristine;
    pristine.save();
    j.make = [=]() -> Job::Use
    {
        g_processors = processors;
        g_file = file;
        g_save = save;
        if (load == 1 || load == 4)
        {
            // one to load, of the same kind or torn
            Fuse calm;
            ga::Config plain = c;
            plain.mutator = 0;
            ga::GeneticAlgorithm::shared_ptr g = ga::create(plain, plain.make_mutator());
            rc::state = seed; pristine.restore();
            g_report = &calm; g_save = 1;
            g->OnNextGenerationReadyConnect(on_report);
            ga::IDiscreteParameters::shared_ptr p = ga::make(c.d);
            attempt([&] { g->Optimize(Objective(f, &calm), p.get(), true); });
            g_kept.clear();
            g_save = save;
            if (load == 4) tear(0.7);
        }
        if (load == 2) std::ofstream(file) << "7 nonsense\n";
        if (load == 3) unlink(file.c_str());
        ga::Config mine = c;
        if (load) mine.file = file;
        boost::shared_ptr<Mutator> m(new Mutator(c.make_mutator()));
        ga::GeneticAlgorithm::shared_ptr g = ga::create(mine, m);
        if (initial)
        {
            std::vector<ga::IDiscreteParameters::shared_ptr> v;
            for (int i = 0; i < c.population - (initial == 2); i++) v.push_back(initial == 3 ? ga::IDiscreteParameters::shared_ptr(new Bit(1, nullptr)) : ga::make(c.d));
            g->SetInitialParameters(v);
        }
        return [=](Transcript& t)
        {
            for (int r = 0; r < runs; r++)
            {
                Fuse in[4];
                in[where].at = at; in[where].type = type;
                g_report = &in[2];
                m->fuse = &in[1];
                rc::state = seed + (uint64_t)r; pristine.restore();
                g->OnNextGenerationReadyConnect(on_report);
                std::vector<ga::IDiscreteParameters::shared_ptr> parts;
                parts.push_back(ga::make(c.d));
                if (user) parts.push_back(ga::IDiscreteParameters::shared_ptr(new Bit(3, &in[3])));
                ga::CompositeDiscreteParameters all;
                bool whole = false;
                attempt([&] { all.Initialize(parts); whole = true; });
                if (!whole) continue;
                ga::IDiscreteParameters* p = user ? &all : parts[0].get();
                attempt([&]
                {
                    switch (wrong)
                    {
                    case 1: g->Optimize(Objective(f, &in[0]), p, false); break;
                    case 2: { k52::optimization::ContinuousParametersArray q(std::vector<double>(2, 0.0)); static_cast<k52::optimization::IOptimizer&>(*g).Optimize(Objective(f, &in[0]), &q, true); break; }
                    default: g->Optimize(Objective(f, &in[0]), p, true);
                    }
                });
                g_kept.clear();
                if (in[where].blown()) g_failed = true;
            }
        };
    };
    return j;
}

// ---- continuous optimisers
class Real : public opt::ContinuousObjectiveFunction
{
public:
    Real(const opt::Function& f, Fuse* fuse, long most) : f_(f), fuse_(fuse), most_(most) {}
    using ContinuousObjectiveFunction::operator();
    virtual double operator()(const std::vector<double>& x) const
    {
        if (fuse_->count >= most_) throw opt::TooLong();
        fuse_->step();
        return f_(x);
    }
    virtual Real* Clone() const { fuse_->step(); return new Real(f_, fuse_, most_); }
private:
    opt::Function f_;
    Fuse* fuse_;
    long most_;
    Alive alive_;
};
class Point : public k52::optimization::IContinuousParameters
{
public:
    Point(const std::vector<double>& v, Fuse* f) : v_(v), f_(f) {}
    virtual std::vector<double> GetValues() const { return v_; }
    virtual void SetValues(const std::vector<double>& v) { f_->step(); v_ = v; }
    virtual bool CheckConstraints() const { return true; }
    virtual Point* Clone() const { f_->step(); return new Point(v_, f_); }
private:
    std::vector<double> v_;
    Fuse* f_;
    Alive alive_;
};

Job continuous(Src& s)
{
    Job j;
    conf::Config c = conf::gen_config(s);
    conf::Config in;
    if (c.k == conf::RS) { c.n = std::min<size_t>(c.n, 10); if (s.flip()) { in = conf::gen_config(s, conf::HJ, conf::RB); in.n = std::min<size_t>(in.n, 10); } }
    bool with_inner = c.k == conf::RS && in.n, clone = c.clones() && s.chance(0.3), wrong = s.chance(0.05), user = s.flip();
    typedef opt::Function F;
    opt::Function f = opt::gen_function(s, {F::Quadratic, F::Absolute, F::Rosenbrock, F::Waves, F::Peaks, F::Steps, F::Plateau, F::Rough, F::Constant, F::Hash});
    opt::Point start;
    for (int i = s.range(1, 4); i > 0; i--) start.push_back(opt::simple_real(s, 10));
    bool maximize = s.flip(), in_parameters = user && s.flip();
    long at; int type;
    gen_fuse(s, at, type, 200, 0.6);
    uint64_t seed = s.draw(0xffffffff) * 0x9e3779b97f4a7c15ULL + 1;
    unsigned processors = c.k == conf::RS && s.chance(0.5) ? 3 : 1;
    j.name = conf::kNames[c.k];
    j.text = c.text() + (with_inner ? " with " + in.text() : "") + " on " + f.text() + " from " + show(start) + ", throws at " + std::to_string(at) + (in_parameters ? " in the parameters" : "");
    rc::begin(s, true);
    rc::Image pristine;
    pristine.save();
    opt::no_plot();
    j.make = [=]() -> Job::Use
    {
        g_processors = processors;
        conf::Config mine = c;          // random search only refers to the inner optimiser
        if (with_inner) mine.inner = in.make();
        opt::ContinuousOptimizer::shared_ptr o = mine.make();
        if (clone) o.reset(o->Clone());
        return [=](Transcript& t)
        {
            opt::ContinuousOptimizer::shared_ptr inner = mine.inner;
            Fuse a, b;
            a.at = at; a.type = type;
            rc::state = seed; pristine.restore();
            attempt([&]
            {
                Real g(f, in_parameters ? &b : &a, 400);
                if (wrong) { par::IntParameter q(1, 0, 3); static_cast<k52::optimization::IOptimizer&>(*o).Optimize(g, &q, maximize); return; }
                if (user) { Point p(start, in_parameters ? &a : &b); o->Optimize(g, &p, maximize); }
                else { opt::ContinuousParametersArray p(start); o->Optimize(g, &p, maximize); }
            });
        };
    };
    return j;
}

// ---- worker pools
struct Result : public k52::parallel::ITaskResult { Alive alive; std::vector<double> v; };
struct Task : public k52::parallel::ITask
{
    Fuse* fuse = nullptr;
    Alive alive;
    virtual k52::parallel::ITaskResult* Perform() const
    {
        std::unique_ptr<Result> r(new Result());
        r->v.assign(5, 1);
        fuse->step();
        return r.release();
    }
};
Job pool(Src& s)
{
    using namespace k52::parallel;
    Job j;
    std::vector<int> batches;
    for (int i = s.range(0, 4); i > 0; i--) batches.push_back(s.size(0, 20));
    std::vector<long> at; std::vector<int> type;
    for (int n : batches) { long a; int t; gen_fuse(s, a, t, std::max(0, n - 1), 0.4); at.push_back(a); type.push_back(t); }
    int kind = s.range(0, 3);
    unsigned processors = (unsigned)s.range(1, 8);
    bool keep = s.flip();
    j.name = kind == 0 ? "sequential pool" : "pool of threads";
    j.text = show(batches) + " tasks, " + std::to_string(processors) + " processors, throws at " + show(at) + (keep ? ", results outlive the pool" : "");
    j.make = [=]() -> Job::Use
    {
        g_processors = processors;
        IWorkerPool::shared_ptr p;
        attempt([&]
        {
            switch (kind)
            {
            case 0: p = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool); break;
            case 1: p = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool); break;
            case 2: p = WorkerPoolFactory::CreateBestWorkerPool(); break;
            default: WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool);
            }
        });
        if (!p) p = WorkerPoolFactory::CreateBestWorkerPool();
        return [=](Transcript& t)
        {
            for (size_t b = 0; b < batches.size(); b++)
            {
                Fuse f;
                f.at = at[b]; f.type = type[b];
                std::vector<Task> tasks((size_t)batches[b]);
                std::vector<const ITask*> list;
                for (auto& k : tasks) { k.fuse = &f; list.push_back(&k); }
                std::vector<ITaskResult::shared_ptr> results;
                attempt([&] { results = p->DoTasks(list); });
                t((double)results.size());
            }
        };
    };
    return j;
}

// ---- transforms with functions of the user's
struct Wave : public k52::dsp::IWavelet
{
    Fuse* fuse = nullptr;
    Alive alive;
    double width = 1;
    cd GetValue(double t) override { if (fuse) fuse->step(); double u = t / width; return std::exp(-u * u / 2) * (1 - u); }
};
struct Scales : public k52::dsp::IScale
{
    std::vector<double> v;
    Fuse* fuse = nullptr;
    Alive alive;
    std::vector<double> GetScales() const override { if (fuse) fuse->step(); return v; }
};
Fuse* g_progress;
void on_progress(double) { g_progress->step(); }

Job transforms(Src& s)
{
    using namespace k52::dsp;
    Job j;
    size_t N = (size_t)s.range(1, 24), M = s.chance(0.3) ? N + 1 : N;
    double limit = s.pick(std::vector<double>{-1, 10, 10, 0.002});
    std::vector<double> v;
    for (int i = s.range(1, 3); i > 0; i--) v.push_back(s.chance(0.05) ? -1 : s.flip() ? s.range(1, 8) : s.real(0.3, 8));
    struct Call { int kind; double scale; long at; int type; bool scales; int who; };
    std::vector<Call> calls;
    for (int i = s.range(1, 6); i > 0; i--)
    {
        Call k;
        k.kind = s.range(0, 4);
        k.scale = s.pick(v); k.scales = s.chance(0.1); k.who = s.range(0, 1);
        gen_fuse(s, k.at, k.type, (int)(N * v.size()), 0.5);
        calls.push_back(k);
    }
    int lo = s.range(1, 3), L = 2 * s.range(lo, 6), count = s.range(2, 4);
    Wavelet::ScaleType type = s.flip() ? Wavelet::Linear : Wavelet::Log;
    Sig x = gen_signal(s, M, 0);
    std::vector<double> rx;
    for (auto& e : x) rx.push_back(e.real());
    j.name = "wavelet transforms";
    j.text = "length " + std::to_string(N) + ", signal of " + std::to_string(M) + ", scales " + show(v) + ", cache " + show(limit) + ", " + std::to_string(calls.size()) + " calls";
    j.make = [=]() -> Job::Use
    {
        boost::shared_ptr<Scales> scales(new Scales());
        scales->v = v;
        boost::shared_ptr<FastWaveletTransform> t(new FastWaveletTransform(scales, N, limit));
        std::vector<boost::shared_ptr<Wave>> w;
        for (int i = 0; i < 2; i++) { w.push_back(boost::shared_ptr<Wave>(new Wave())); w[i]->width = i + 1; }
        Wavelet::shared_ptr own = Wavelet::BuildWavelet(w[0], lo, L, count, type);
        return [=](Transcript&)
        {
            for (auto& k : calls)
            {
                Fuse f, calm;
                f.at = k.at; f.type = k.type;
                boost::shared_ptr<Wave> u = w[(size_t)k.who];
                u->fuse = k.scales ? &calm : &f;
                scales->fuse = k.scales ? &f : &calm;
                g_progress = &f;
                attempt([&]
                {
                    switch (k.kind)
                    {
                    case 0: t->Transform(x, u); break;
                    case 1: t->TransformOneScale(x, u, k.scale); break;
                    case 2: Wavelet::BuildWavelet(u, lo, L, count, type); break;
                    case 3: own->base_function(u); own->createWavelet(type); break;
                    default: own->base_function(u); u->fuse = nullptr; own->createWavelet(type); ContiniousWaveletTransformation(rx, own, 1, on_progress);
                    }
                });
                u->fuse = nullptr; scales->fuse = nullptr;
                // whole again
                if (k.kind >= 3) { own->base_function(w[0]); own->createWavelet(type); }
            }
        };
    };
    return j;
}

// ---- calls that are refused
template<class T> T* made(T* p) { return p; }
Job refused(Src& s)
{
    using namespace k52::dsp;
    using namespace par;
    Job j;
    std::vector<int> which;
    for (int i = s.range(1, 8); i > 0; i--) which.push_back(s.range(0, 31));
    size_t N = (size_t)s.range(1, 12);
    int n = s.range(1, 4);
    par::Desc d = par::gen(s, 2, 12), e = par::gen(s, 2, 12);
    double bad = s.flip() ? -s.unit() - 0.01 : 1.01 + s.unit();
    j.name = "refused calls";
    j.text = show(which) + ", length " + std::to_string(N) + ", " + par::text(d) + ", " + par::text(e);
    j.make = [=]() -> Job::Use
    {
        boost::shared_ptr<FastFourierTransform> q(new FastFourierTransform(N));
        IFourierTransform::shared_ptr ft(q);
        AkimaSpline::shared_ptr sp = AkimaSpline::Create();
        boost::shared_ptr<CompositeDiscreteParameters> comp(new CompositeDiscreteParameters());
        comp->Initialize(std::vector<IDiscreteParameters::shared_ptr>(1, par::make(d)));
        IDiscreteParameters::shared_ptr one = par::make(d), two = par::make(e);
        boost::shared_ptr<k52::optimization::Individual> ind(new k52::optimization::Individual(one.get())), raw(new k52::optimization::Individual());
        boost::shared_ptr<k52::SettingsManager> m(new k52::SettingsManager(0, nullptr));
        typedef k52::common::Cache<std::vector<bool>, double> C;
        C::shared_ptr c = C::Create(0.0004);
        return [=](Transcript&)
        {
            Sig x(N + 1, 1), y(N, 1);
            std::vector<double> few((size_t)(n % 3), 1.0), four(4, 1.0);
            for (int k : which)
                attempt([&]
                {
                    switch (k)
                    {
                    case 0: FastFourierTransform(0); break;
                    case 1: q->Transform(x); break;
                    case 2: InverseFourierTransform(ft).Transform(x); break;
                    case 3: FourierBasedCircularConvolution(ft).EvaluateConvolution(x, y); break;
                    case 4: CircularConvolution().EvaluateConvolution(x, y); break;
                    case 5: AkimaWavelet::CreateAkimaWavelet(few, few); break;
                    case 6: AkimaWavelet::CreateAkimaWavelet(four, few); break;
                    case 7: sp->Initialize(few, four); break;
                    case 8: sp->Initialize(four, four); sp->Value(100); break;
                    case 9: LinearScale(-1, 2, 3); break;
                    case 10: LogarithmicScale(3, 3); break;
                    case 11: FastWaveletTransform(IScale::shared_ptr(new LinearScale(1, 2, 3)), 0); break;
                    case 12: k52::optimization::LinearMutator(bad, 0.5); break;
                    case 13: k52::optimization::FlipBitMutator{bad}; break;
                    case 14: k52::common::Random::ValidateProbability(bad); break;
                    case 15: DoubleParameter(bad, 0, 1, 0.1); break;
                    case 16: DoubleParametersArray(1, 0, 0.1, 3); break;
                    case 17: DoubleParametersArray(0, 1, 0.1, 3).SetValues(std::vector<double>(3, bad)); break;
                    case 18: comp->Initialize(std::vector<IDiscreteParameters::shared_ptr>(3, two)); break;
                    case 19: comp->Initialize(two, 3); break;
                    case 20: CompositeDiscreteParameters().Clone(); break;
                    case 21: { ChromosomeType b(one->GetChromosomeSize() + 1); one->SetFromChromosome(b.begin(), b.end()); break; }
                    case 22: { ChromosomeType b(comp->GetChromosomeSize() + 1); comp->SetChromosome(b.begin(), b.end()); break; }
                    case 23: one->HasSameMetaParameters(two.get()); break;
                    case 24: raw->GetChromosome(); break;
                    case 25: ind->Initialize(two.get()); break;
                    case 26: { std::stringstream in("1 0 x"); in >> *ind; break; }
                    case 27: k52::SettingsManager(std::string("none.xml")); break;
                    case 28:
                        {
                            std::string name = "torn-" + std::to_string(getpid());
                            std::ofstream(name) << "<a><b>1</a>";
                            try { k52::SettingsManager r{name}; } catch (...) { unlink(name.c_str()); throw; }
                            unlink(name.c_str());
                            break;
                        }
                    case 29: c->GetCachedValue(std::vector<bool>(200, true)); break;
                    case 30: Wavelet::BuildWavelet(IWavelet::shared_ptr(), 1, 4, 2, Wavelet::Linear); break;
                    default: m->get<double>("nothing.here");
                    }
                });
        };
    };
    return j;
}

// ---- objects that share others, and go in any order
Job sharing(Src& s)
{
    using namespace k52::dsp;
    using namespace par;
    Job j;
    std::vector<par::Desc> d;
    for (int i = s.range(1, 4); i > 0; i--) d.push_back(par::gen(s, 1, 10));
    struct Op { int kind; unsigned a, b; };
    std::vector<Op> ops;
    for (int i = s.range(1, 25); i > 0; i--) ops.push_back({s.range(0, 9), (unsigned)s.draw(0xffff), (unsigned)s.draw(0xffff)});
    long at; int type;
    gen_fuse(s, at, type, 60, 0.5);
    j.name = "objects that share others";
    std::vector<int> kinds;
    for (auto& o : ops) kinds.push_back(o.kind);
    j.text = "steps " + show(kinds) + ", throws at " + std::to_string(at);
    rc::begin(s, true);
    rc::Image pristine;
    pristine.save();
    j.make = [=]() -> Job::Use
    {
        return [=](Transcript&)
        {
            rc::state = 7; pristine.restore();
            std::vector<IDiscreteParameters::shared_ptr> p;
            for (auto& e : d) p.push_back(par::make(e));
            Fuse fuse;
            fuse.at = at; fuse.type = type;
            p.push_back(IDiscreteParameters::shared_ptr(new Bit(1, &fuse)));
            std::vector<std::shared_ptr<k52::optimization::Individual>> ind;
            std::vector<IFourierTransform::shared_ptr> f;
            std::vector<boost::shared_ptr<InverseFourierTransform>> inv;
            std::vector<boost::shared_ptr<FourierBasedCircularConvolution>> conv;
            boost::shared_ptr<Wave> w(new Wave());
            std::vector<Wavelet::shared_ptr> win;
            for (auto& o : ops)
                attempt([&]
                {
                    switch (o.kind)
                    {
                    case 0:
                        {
                            boost::shared_ptr<CompositeDiscreteParameters> c(new CompositeDiscreteParameters());
                            std::vector<IDiscreteParameters::shared_ptr> parts;
                            for (unsigned k = 0; k <= o.b % 3; k++) parts.push_back(p[(o.a + k * 7) % p.size()]);
                            size_t size = 0;
                            for (auto& e : parts) size += e->GetChromosomeSize();
                            if (size > 300) return;
                            if (o.b % 5 == 0) c->Initialize(parts[0], 2); else c->Initialize(parts);
                            p.push_back(c);
                            break;
                        }
                    case 1: p.push_back(IDiscreteParameters::shared_ptr(p[o.a % p.size()]->Clone())); break;
                    case 2: if (p.size() > 1) p.erase(p.begin() + (long)(o.a % p.size())); break;
                    case 3: ind.push_back(std::make_shared<k52::optimization::Individual>(p[o.a % p.size()].get())); break;
                    case 4: if (!ind.empty()) { auto& a = *ind[o.a % ind.size()]; auto& b = *ind[o.b % ind.size()]; if (&a != &b) a.Crossover(&b); a.GetParametersAccordingToChromosome(); } break;
                    case 5: if (!ind.empty()) { ind.push_back(std::make_shared<k52::optimization::Individual>(*ind[o.a % ind.size()])); if (o.b % 2) *ind[0] = *ind.back(); if (o.b % 3 == 0) ind.erase(ind.begin()); } break;
                    case 6: f.push_back(o.b % 2 ? IFourierTransform::shared_ptr(new FastFourierTransform(1 + o.a % 8)) : IFourierTransform::shared_ptr(new FourierTransform())); break;
                    case 7: if (!f.empty()) { inv.push_back(boost::shared_ptr<InverseFourierTransform>(new InverseFourierTransform(f[o.a % f.size()]))); conv.push_back(boost::shared_ptr<FourierBasedCircularConvolution>(new FourierBasedCircularConvolution(f[o.b % f.size()]))); } break;
                    case 8: if (!f.empty() && o.a % 2) f.erase(f.begin()); if (!conv.empty()) { Sig x(1 + o.b % 8, 1); conv[o.a % conv.size()]->EvaluateConvolution(x, x); } break;
                    default: win.push_back(Wavelet::BuildWavelet(w, 1, 4, 2, Wavelet::Linear)); if (o.a % 3 == 0) win.erase(win.begin()); if (o.a % 4 == 0) w.reset(new Wave());
                    }
                });
            if (!ops.empty() && ops[0].a % 2) { f.clear(); p.clear(); w.reset(); }
        };
    };
    return j;
}

void go(Src& s, const Job& j)
{
    s.note("work", j.name);
    s.note("with", j.text);
    s.label(j.name);
    g_failed = false;
    if (s.flip())
        steady(s, "making, using and destroying the objects", true, [&] { Transcript t; j.run(t); });
    else
        steady(s, "the work", true, [&]
        {
            Job::Use use = j.make();
            { Transcript t; use(t); }
            steady(s, "the same work with the same objects", false, [&] { Transcript t; use(t); });
        });
    if (g_failed) { s.nontrivial(); s.label("with failures"); }
    unlink(("population-" + std::to_string(getpid())).c_str());
}
}

static void f_genetic(Src& s) { go(s, genetic(s)); }
static void f_continuous(Src& s) { go(s, continuous(s)); }
static void f_pool(Src& s) { go(s, pool(s)); }
static void f_transforms(Src& s) { go(s, transforms(s)); }
static void f_refused(Src& s) { go(s, refused(s)); }
static void f_sharing(Src& s) { go(s, sharing(s)); }
static void f_plain(Src& s)
{
    g_processors = (unsigned)s.range(1, 3);
    opt::no_plot();
    static Job (*const makers[])(Src&) = {work::optimise, work::parameters, work::grid, work::pool, work::spline, work::function, work::continuous, work::fast_wavelet, work::fourier, work::cache, work::settings};
    Job j = makers[s.index(11)](s);
    s.nontrivial();
    go(s, j);
}

Property pbt::property()
{
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    Property p = {"C37",
        {{"genetic", 4, f_genetic}, {"continuous", 3, f_continuous}, {"pool", 2, f_pool}, {"transforms", 3, f_transforms}, {"refused", 3, f_refused}, {"sharing", 3, f_sharing}, {"plain", 3, f_plain}},
        16000, 600000,
        "Pieces of work with objects of their own (made, used, destroyed), done again and again with equal objects or with the same ones: genetic algorithms, continuous optimisers, "
        "worker pools, transforms, refused calls, objects that share others and go in any order; user code that throws at any call. After each repetition the memory, user objects, plans, threads "
        "and open files held are counted. Non-trivial: a call was refused or failed, or the work makes and uses objects without failures.",
        {"What is kept once for all later use (a singleton, the first use of a library) is not counted: memory has to grow again whenever the number of repetitions doubles, up to 32, to be reported."}};
    p.batch = 25;
    return p;
}
