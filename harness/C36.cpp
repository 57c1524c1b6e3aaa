// C36: what user code throws ends the call it was made from, and only that.
#include "ga_util.h"
#include "opt_config.h"
#include "dsp_util.h"
#include <k52/dsp/cwt.h>
#include <k52/dsp/haar_wavelet_function.h>
#include <k52/dsp/mhat_wavelet_function.h>
#include <k52/dsp/morlet_wavelet_function.h>
#include <k52/dsp/transform/wavelet/fast_wavelet_transform.h>
using namespace pbt;

namespace
{
// What the user's code throws, of many types, none of which the library knows.
struct Mine : public std::runtime_error { explicit Mine(int id) : std::runtime_error("text of mine " + std::to_string(id)), id(id) {} int id; };
struct Odd { int id; };
struct Logic : public std::invalid_argument { explicit Logic(int id) : std::invalid_argument("text of logic " + std::to_string(id)), id(id) {} int id; };
enum { kTypes = 5 };
[[noreturn]] void raise(int type, int id)
{
    switch (type)
    {
    case 0: throw Mine(id);
    case 1: throw Odd{id};
    case 2: throw id;
    case 3: throw Logic(id);
    default: throw std::bad_alloc();
    }
}
// how a call ended
template<class F> std::string outcome(F f)
{
    try { f(); }
    catch (const Failure&) { throw; }
    catch (const Mine& e) { return "threw mine " + std::to_string(e.id); }
    catch (const Odd& e) { return "threw odd " + std::to_string(e.id); }
    catch (int e) { return "threw int " + std::to_string(e); }
    catch (const Logic& e) { return "threw logic " + std::to_string(e.id); }
    catch (const std::bad_alloc&) { return "threw bad_alloc"; }
    catch (const std::exception& e) { return std::string("threw ") + e.what(); }
    catch (...) { return "threw something"; }
    return "returned";
}
std::string thrown(int type, int id)
{
    return type == 0 ? "threw mine " + std::to_string(id) : type == 1 ? "threw odd " + std::to_string(id) : type == 2 ? "threw int " + std::to_string(id)
        : type == 3 ? "threw logic " + std::to_string(id) : "threw bad_alloc";
}

// counts down to a throw
struct Fuse
{
    long at = -1;
    int type = 0, id = 0;
    std::atomic<long> count{0};
    std::atomic<bool> blown{false};
    void step()
    {
        if (count.fetch_add(1) == at) { blown = true; raise(type, id); }
    }
};

// ---- genetic algorithm
enum Where { Nowhere, InObjective, InReport, InContext, InMutation, InSave };
const char* const kWhere[] = {"nowhere", "the objective", "the generation callback", "the mutation context", "the mutation", "the callback, after asking to save"};

Fuse* g_fuse[6];
std::string g_file;

class Objective : public ga::DiscreteObjectiveFunction
{
public:
    Objective(ga::Function f, std::atomic<long>& n, std::atomic<uint64_t>& sum) : f_(f), n_(n), sum_(sum) {}
    virtual double operator()(const ga::IDiscreteParameters* const p) const
    {
        g_fuse[InObjective]->step();
        std::vector<ga::Leaf> l;
        ga::leaves(p, l);
        double v = f_(l);
        n_++;
        std::vector<double> x;
        for (auto& e : l) x.push_back(e.v);
        sum_ += (uint64_t)(opt::hash01(x, 5) * 1e15);
        return v;
    }
    virtual Objective* Clone() const { return new Objective(f_, n_, sum_); }
private:
    ga::Function f_;
    std::atomic<long>& n_;
    std::atomic<uint64_t>& sum_;
};

class Mutator : public ga::IMutator
{
public:
    explicit Mutator(double p) : p_(p) {}
    void reset(uint64_t s) { state_ = s; }
    virtual void ApplyNewMutationContext(const ga::MutationContext&) { g_fuse[InContext]->step(); }
    virtual void MutateChromosome(ga::ChromosomeType* c)
    {
        // half of it is done when it fails
        for (size_t i = 0; i < c->size(); i++)
        {
            if (i == c->size() / 2) g_fuse[InMutation]->step();
            state_ = ga::mix(state_);
            if ((state_ >> 11) / 9007199254740992.0 < p_) (*c)[i] = !(*c)[i];
        }
    }
private:
    double p_;
    uint64_t state_ = 1;
};

struct Report
{
    double average, best;
    ga::Point point;
    size_t number;
    int hits, invalid;
    std::vector<std::pair<int, double>> individuals;
    long evals;
    bool operator==(const Report& o) const
    {
        return average == o.average && best == o.best && point == o.point && number == o.number && hits == o.hits && invalid == o.invalid && individuals == o.individuals && evals == o.evals;
    }
    std::string text() const
    {
        std::ostringstream s;
        s << "generation " << number << ": average "; put(s, average); s << ", best "; put(s, best); s << " at "; put(s, point); s << ", " << hits << " hits, " << invalid << " invalid, " << evals << " evaluations";
        return s.str();
    }
};
std::vector<Report>* g_reports;
std::atomic<long>* g_evals;
void on_report(ga::GenerationStatistics st)
{
    g_fuse[InReport]->step();
    ga::Reported r = ga::read_report(st);
    Report o;
    o.average = r.average; o.best = r.best; o.point = r.best_point; o.number = r.number; o.hits = r.hits; o.invalid = r.invalid; o.evals = *g_evals;
    for (auto& i : r.individuals) o.individuals.push_back({i.times_chosen_for_crossover, i.fitness});
    g_reports->push_back(o);
    if (g_fuse[InSave]->at >= 0) { st.SaveCurrentPopulationToFile(g_file); g_fuse[InSave]->step(); }
}

struct Outcome
{
    std::string how;
    std::vector<Report> reports;
    ga::Point result;
    long evals;
    uint64_t sum;
    bool blown;
};

struct Call { ga::Function f; Where where = Nowhere; long at = 0; int type = 0, id = 0; uint64_t seed = 0; };

Outcome play(ga::GeneticAlgorithm& g, Mutator& m, const ga::Config& c, const Call& k, const rc::Image& pristine)
{
    Outcome o;
    Fuse fuse[6];
    for (int i = 0; i < 6; i++) { g_fuse[i] = &fuse[i]; }
    fuse[k.where].at = k.at; fuse[k.where].type = k.type; fuse[k.where].id = k.id;
    std::atomic<long> evals{0};
    std::atomic<uint64_t> sum{0};
    g_reports = &o.reports;
    g_evals = &evals;
    pristine.restore();
    rc::state = k.seed;
    m.reset(k.seed);
    ga::IDiscreteParameters::shared_ptr p = ga::make(c.d);
    ga::Point before = ga::values(p.get());
    g.OnNextGenerationReadyConnect(on_report);
    o.how = outcome([&] { g.Optimize(Objective(k.f, evals, sum), p.get(), true); });
    o.result = ga::values(p.get());
    o.evals = evals;
    o.sum = sum;
    o.blown = fuse[k.where].blown;
    if (o.how != "returned") check(o.result == before, "a run that failed changed the parameters from ", before, " to ", o.result);
    return o;
}

void compare(const Outcome& a, const Outcome& b, const char* who, bool threads)
{
    check(a.how == b.how, who, " ", b.how, ", a fresh one ", a.how);
    for (size_t i = 0; i < std::min(a.reports.size(), b.reports.size()); i++)
        check(a.reports[i] == b.reports[i], who, " reports ", b.reports[i].text(), ", a fresh one ", a.reports[i].text());
    check(a.reports.size() == b.reports.size(), who, " gives ", b.reports.size(), " reports, a fresh one ", a.reports.size());
    check(a.result == b.result, who, " returns ", b.result, ", a fresh one ", a.result);
    if (!threads || a.how == "returned")
    {
        check(a.evals == b.evals, who, " makes ", b.evals, " evaluations, a fresh one ", a.evals);
        check(a.sum == b.sum, who, " evaluates other points than a fresh one");
    }
}
}

static void genetic(Src& s)
{
    ga::Config c;
    do { c = ga::gen_config(s, 16, 8); } while (ga::leaf_count(c.d) == 0);
    c.mutator = 0;
    if (s.chance(0.4)) c.cache = 5;
    g_processors = s.chance(0.8) ? 1 : 3;
    bool threads = g_processors > 1;
    double p = s.chance(0.3) ? 0 : s.unit() * 0.3;
    s.note("parameters", ga::text(c.d)); s.note("configuration", c.text()); s.note("mutation", p); s.note("processors", (int)g_processors);
    rc::begin(s, true);
    rc::Image pristine;
    pristine.save();
    g_file = "population-" + std::to_string(getpid());
    boost::shared_ptr<Mutator> m(new Mutator(p));
    ga::GeneticAlgorithm::shared_ptr g = ga::create(c, m);
    int n = s.range(2, 5);
    bool failed = false;
    for (int q = 0; q < n; q++)
    {
        Call k;
        k.f = ga::gen_function(s);
        k.where = q + 1 == n && s.flip() ? Nowhere : (Where)s.range(0, 5);
        k.type = s.range(0, kTypes - 1);
        k.id = s.range(1, 1000);
        k.at = k.where == InObjective ? s.size(0, c.population * c.generations) : k.where == InMutation ? s.size(0, c.population * c.generations) : s.range(0, c.generations - 1);
        k.seed = s.draw(0xffffffff) * 0x9e3779b97f4a7c15ULL + 1;
        s.note("function", std::string(k.f.name())); s.note("throws in", std::string(kWhere[k.where])); s.note("at", k.at); s.note("type", k.type);
        Outcome o = play(*g, *m, c, k, pristine);
        boost::shared_ptr<Mutator> fresh_m(new Mutator(p));
        ga::GeneticAlgorithm::shared_ptr fresh = ga::create(c, fresh_m);
        Outcome a = play(*fresh, *fresh_m, c, k, pristine);
        if (o.blown)
        {
            check(o.how == thrown(k.type, k.id), "user code ", thrown(k.type, k.id), ", but the run ", o.how);
            s.label(std::string("thrown in ") + kWhere[k.where]);
        }
        else check(o.how == "returned", "the run ", o.how);
        compare(a, o, failed ? "an algorithm used after a failed run" : "an algorithm", threads);
        if (failed) { s.nontrivial(); s.label("used after a failure"); }
        failed |= o.blown;
    }
    unlink(g_file.c_str());
}

// ---- continuous optimisers
namespace
{
class Continuous : public opt::ContinuousObjectiveFunction
{
public:
    Continuous(const opt::Function& f, std::shared_ptr<Fuse> fuse, long most) : f_(f), fuse_(fuse), most_(most) {}
    using ContinuousObjectiveFunction::operator();
    virtual double operator()(const std::vector<double>& x) const
    {
        if (fuse_->count >= most_) throw opt::TooLong();
        fuse_->step();
        return f_(x);
    }
    virtual Continuous* Clone() const { return new Continuous(f_, fuse_, most_); }
private:
    opt::Function f_;
    std::shared_ptr<Fuse> fuse_;
    long most_;
};

// parameters of the user whose checks fail
class Parameters : public k52::optimization::IContinuousParameters
{
public:
    Parameters(const std::vector<double>& v, std::shared_ptr<Fuse> f) : v_(v), f_(f) {}
    virtual std::vector<double> GetValues() const { return v_; }
    virtual void SetValues(const std::vector<double>& v) { f_->step(); v_ = v; }
    virtual bool CheckConstraints() const { return true; }
    virtual Parameters* Clone() const { return new Parameters(v_, f_); }
private:
    std::vector<double> v_;
    std::shared_ptr<Fuse> f_;
};
}

static void continuous(Src& s)
{
    opt::no_plot();
    rc::begin(s, true);
    rc::Image pristine;
    pristine.save();
    conf::Config c = conf::gen_config(s);
    conf::Config in;
    if (c.k == conf::RS && s.flip()) { in = conf::gen_config(s, conf::HJ, conf::RB); in.n = std::min<size_t>(in.n, 20); c.inner = in.make(); }
    g_processors = c.k == conf::RS && s.chance(0.3) ? 3 : 1;
    s.note("optimiser", c.text()); s.note("inner", c.inner ? in.text() : std::string("none")); s.note("processors", (int)g_processors);
    opt::ContinuousOptimizer::shared_ptr o = c.make();
    bool failed = false;
    for (int q = s.range(2, 5); q > 0; q--)
    {
        typedef opt::Function F;
        opt::Function f = opt::gen_function(s, {F::Quadratic, F::Absolute, F::Rosenbrock, F::Waves, F::Peaks, F::Steps, F::Plateau, F::Rough, F::Constant, F::Hash});
        opt::Point start;
        for (int i = s.range(1, 4); i > 0; i--) start.push_back(opt::simple_real(s, 10));
        bool maximize = s.flip(), in_parameters = s.chance(0.25);
        int type = s.range(0, kTypes - 1), id = s.range(1, 1000);
        long at = s.chance(0.3) ? -1 : s.chance(0.5) ? s.range(0, 12) : s.size(0, 300);
        uint64_t seed = s.draw(0xffffffff) * 0x9e3779b97f4a7c15ULL + 1;
        s.note("function", f.text()); s.note("start", start); s.note("maximize", maximize); s.note("in the parameters", in_parameters); s.note("at", at); s.note("type", type);
        std::string how[2];
        opt::Point result[2];
        long count[2];
        bool blown[2];
        for (int fresh = 0; fresh < 2; fresh++)
        {
            opt::ContinuousOptimizer::shared_ptr x = fresh ? c.make() : o;
            std::shared_ptr<Fuse> fuse(new Fuse()), other(new Fuse());
            fuse->at = at; fuse->type = type; fuse->id = id;
            pristine.restore();
            rc::state = seed;
            Parameters p(start, in_parameters ? fuse : other);
            Continuous g(f, in_parameters ? other : fuse, 3000);
            how[fresh] = outcome([&] { x->Optimize(g, &p, maximize); });
            result[fresh] = p.GetValues();
            count[fresh] = fuse->count + other->count;
            blown[fresh] = fuse->blown;
        }
        const char* who = failed ? "an optimiser used after a failed run" : "an optimiser";
        // of several threads either may be the one that ends the run
        static const std::string too_long = "threw " + std::string(opt::TooLong().what());
        if (g_processors > 1 && (how[0] == too_long || how[1] == too_long)) { s.label("too long"); failed = true; continue; }
        if (blown[0])
        {
            check(how[0] == thrown(type, id), "user code ", thrown(type, id), ", but the optimiser ", how[0]);
            s.label(in_parameters ? "thrown in the parameters" : "thrown in the objective");
        }
        check(how[0] == how[1], who, " ", how[0], ", a fresh one ", how[1]);
        if (g_processors == 1 || how[0] == "returned")
        {
            check(conf::same(result[0], result[1]), who, " leaves ", result[0], ", a fresh one ", result[1]);
            check(count[0] == count[1], who, " makes ", count[0], " calls, a fresh one ", count[1]);
        }
        if (failed) { s.nontrivial(); s.label(conf::kNames[c.k]); }
        failed |= blown[0];
    }
}

// ---- wavelets
namespace
{
struct User : public k52::dsp::IWavelet
{
    cd a;
    double at, width;
    Fuse* fuse = nullptr;
    cd GetValue(double t) override
    {
        if (fuse) fuse->step();
        double u = (t - at) / width;
        return a * std::exp(-u * u / 2);
    }
};
struct Scales : public k52::dsp::IScale
{
    std::vector<double> v;
    Fuse* fuse = nullptr;
    std::vector<double> GetScales() const override { if (fuse) fuse->step(); return v; }
};
boost::shared_ptr<User> gen_user(Src& s)
{
    boost::shared_ptr<User> w(new User());
    w->a = cd(s.real(0.5, 2), s.real(-2, 2));
    w->at = s.real(-2, 2);
    w->width = s.real(0.3, 3);
    return w;
}
void close(const Sig& a, const Sig& b, const char* what)
{
    check(a.size() == b.size(), what, ": ", a.size(), " values, a fresh one ", b.size());
    double m = 0;
    for (auto& e : b) m = std::max(m, std::abs(e));
    for (size_t i = 0; i < a.size(); i++) check(std::abs(a[i] - b[i]) <= 1e-9 * m + 1e-300, what, ": value ", i, " is ", a[i], ", of a fresh one ", b[i]);
}
}

static void fast_wavelet(Src& s)
{
    using namespace k52::dsp;
    size_t N = (size_t)s.range(1, 24);
    double limit = s.pick(std::vector<double>{-1, 10, 10, 0.002});
    boost::shared_ptr<Scales> scales(new Scales()), calm(new Scales());
    for (int i = s.range(1, 4); i > 0; i--) scales->v.push_back(s.flip() ? s.range(1, 8) : s.real(0.3, 8));
    calm->v = scales->v;
    std::vector<boost::shared_ptr<User>> users;
    for (int i = s.range(1, 3); i > 0; i--) users.push_back(gen_user(s));
    s.note("length", N); s.note("cache", limit); s.note("scales", scales->v);
    FastWaveletTransform t(scales, N, limit), plain(calm, N, -1);
    bool failed = false;
    for (int q = s.range(2, 10); q > 0; q--)
    {
        Sig x = gen_signal(s, N, 0);
        boost::shared_ptr<User> w = users[s.index(users.size())];
        bool one = s.flip();
        double sc = s.pick(scales->v);
        Fuse in_wavelet, in_scales;
        if (s.flip()) { in_wavelet.at = s.range(0, (int)(N * (one ? 1 : scales->v.size())) - 1); }
        if (s.chance(0.1)) in_scales.at = 0;
        in_wavelet.type = in_scales.type = s.range(0, kTypes - 1);
        in_wavelet.id = s.range(1, 1000); in_scales.id = in_wavelet.id + 1000;
        w->fuse = &in_wavelet; scales->fuse = &in_scales;
        s.note("one scale", one); s.note("scale", sc); s.note("throws at", in_wavelet.at); s.note("scales throw", in_scales.at == 0);
        Sig r;
        std::vector<Sig> all;
        std::string how = outcome([&] { if (one) r = t.TransformOneScale(x, w, sc); else all = t.Transform(x, w); });
        w->fuse = nullptr; scales->fuse = nullptr;
        if (in_scales.blown || in_wavelet.blown)
        {
            std::string want = in_scales.blown ? thrown(in_scales.type, in_scales.id) : thrown(in_wavelet.type, in_wavelet.id);
            check(how == want, "user code ", want, ", but the transform ", how);
            s.label("failed");
            failed = true;
            continue;
        }
        if (limit == 0.002 && how != "returned") { s.label("over the limit"); continue; }
        check(how == "returned", "the transform ", how);
        const char* what = failed ? "a transform after a failed one" : "a transform";
        if (one) close(r, plain.TransformOneScale(x, w, sc), what);
        else
        {
            std::vector<Sig> want = plain.Transform(x, w);
            check(all.size() == want.size(), what, " has ", all.size(), " rows");
            for (size_t i = 0; i < all.size(); i++) close(all[i], want[i], what);
        }
        if (failed) { s.nontrivial(); s.label("used after a failure"); }
    }
}

namespace { Fuse* g_progress; void on_progress(double) { g_progress->step(); } }
static void windowed(Src& s)
{
    using namespace k52::dsp;
    int lo = s.range(1, 4), L = 2 * s.range(lo, 8), count = s.range(2, 5);
    Wavelet::ScaleType type = s.flip() ? Wavelet::Linear : Wavelet::Log;
    boost::shared_ptr<User> w = gen_user(s), v = gen_user(s);
    Fuse fuse;
    s.note("window", L); s.note("count", count);
    auto arm = [&] (long most) { fuse.at = s.range(0, (int)most); fuse.type = s.range(0, kTypes - 1); fuse.id = s.range(1, 1000); fuse.count = 0; fuse.blown = false; };
    Wavelet::shared_ptr x = Wavelet::BuildWavelet(v, lo, L, count, type);
    std::vector<double> signal;
    for (int i = s.range(1, 20); i > 0; i--) signal.push_back(s.range(-5, 5));
    bool failed = false;
    boost::shared_ptr<User> now = v;
    for (int q = s.range(2, 8); q > 0; q--)
    {
        switch (s.range(0, 3))
        {
        case 0:                 // building fails
            {
                arm(L * count * 2);
                w->fuse = &fuse;
                std::string how = outcome([&] { Wavelet::BuildWavelet(w, lo, L, count, type); });
                w->fuse = nullptr;
                check(how == (fuse.blown ? thrown(fuse.type, fuse.id) : "returned"), "building ", how, ", user code ", thrown(fuse.type, fuse.id));
                failed |= fuse.blown;
                break;
            }
        case 1:                 // building again fails, and is repeated, perhaps with another function
            {
                arm(L * count - 1);
                boost::shared_ptr<User> next = s.flip() ? w : v;
                x->base_function(next);
                next->fuse = &fuse;
                std::string how = outcome([&] { x->createWavelet(type); });
                next->fuse = nullptr;
                check(how == (fuse.blown ? thrown(fuse.type, fuse.id) : "returned"), "building again ", how, ", user code ", thrown(fuse.type, fuse.id));
                x->createWavelet(type);
                now = next;
                failed |= fuse.blown;
                s.label("built again");
                break;
            }
        case 2:                 // the progress callback fails
            {
                arm((int)signal.size() - 1);
                g_progress = &fuse;
                std::string how = outcome([&] { ContiniousWaveletTransformation(signal, x, 1, on_progress); });
                check(how == (fuse.blown ? thrown(fuse.type, fuse.id) : "returned"), "the transform ", how, ", its callback ", thrown(fuse.type, fuse.id));
                failed |= fuse.blown;
                s.label("callback failed");
                break;
            }
        default:
            {
                Wavelet::shared_ptr fresh = Wavelet::BuildWavelet(now, lo, L, count, type);
                check(ContiniousWaveletTransformation(signal, x, 1) == ContiniousWaveletTransformation(signal, fresh, 1), "the transform of ", signal, " differs from that by a fresh wavelet");
                if (failed) { s.nontrivial(); s.label("used after a failure"); }
            }
        }
    }
}

// ---- individuals and composites of the user's parameters
namespace
{
struct Arm { Fuse* fuse = nullptr; };
// its chromosome is its value; any of its functions may fail
class Part : public ga::IDiscreteParameters
{
public:
    Part(unsigned v, unsigned bits, Arm* a) : v_(v), bits_(bits), arm_(a) {}
    virtual bool CheckConstraints() const { step(); return true; }
    virtual size_t GetChromosomeSize() const { return bits_; }
    virtual void SetFromChromosome(ga::ChromosomeType::const_iterator f, ga::ChromosomeType::const_iterator t)
    {
        step();
        v_ = 0;
        while (f != t) v_ = v_ * 2 + *f++;
    }
    virtual void SetChromosome(ga::ChromosomeType::iterator f, ga::ChromosomeType::iterator t) const
    {
        step();
        for (unsigned k = bits_; k-- > 0; ) *f++ = (v_ >> k) & 1;
    }
    virtual bool HasSameMetaParameters(const IDiscreteParameters* p) const { step(); return dynamic_cast<const Part*>(p) != nullptr; }
    virtual Part* Clone() const { step(); return new Part(v_, bits_, arm_); }
    unsigned value() const { return v_; }
private:
    void step() const { if (arm_->fuse) arm_->fuse->step(); }
    unsigned v_, bits_;
    Arm* arm_;
};
void part_values(const ga::IDiscreteParameters* p, std::vector<unsigned>& out)
{
    if (const Part* q = dynamic_cast<const Part*>(p)) out.push_back(q->value());
    else if (const ga::CompositeDiscreteParameters* c = dynamic_cast<const ga::CompositeDiscreteParameters*>(p))
        for (size_t k = 0; k < c->GetNumberOfParameters(); k++) part_values(c->GetParameter(k).get(), out);
    else for (double v : ga::values(p)) out.push_back((unsigned)(int)v);
}
// all that can be seen of an individual
struct Seen
{
    bool initialized = false, fitted = false;
    std::string bits;
    std::vector<unsigned> values;
    double fitness = 0;
    int times = 0;
    bool operator==(const Seen& o) const { return initialized == o.initialized && fitted == o.fitted && bits == o.bits && values == o.values && fitness == o.fitness && times == o.times; }
    std::string text() const
    {
        std::ostringstream s;
        if (!initialized) s << "not initialized";
        else { s << bits << " = "; put(s, values); if (fitted) { s << ", fitness "; put(s, fitness); } s << ", chosen " << times << " times"; }
        return s.str();
    }
};
Seen look(const ga::Individual& i)
{
    Seen r;
    try { r.bits = ga::bits(i.GetChromosome()); r.initialized = true; } catch (const std::logic_error&) {}
    if (r.initialized) part_values(i.GetParametersAccordingToChromosome(), r.values);
    r.fitted = i.HasFitness();
    if (r.fitted) r.fitness = i.get_fitness();
    r.times = i.get_times_chosen_for_crossover();
    return r;
}
}

static void pieces(Src& s)
{
    using namespace ga;
    rc::begin(s, true);
    Arm arm;
    unsigned bits = (unsigned)s.range(1, 6);
    bool composite = s.flip();
    int before_it = s.range(0, 2), after_it = s.range(0, 2);
    auto sample = [&](unsigned v) -> IDiscreteParameters::shared_ptr
    {
        IDiscreteParameters::shared_ptr part(new Part(v, bits, &arm));
        if (!composite) return part;
        std::vector<IDiscreteParameters::shared_ptr> parts;
        for (int i = 0; i < before_it; i++) parts.push_back(IDiscreteParameters::shared_ptr(new IntParameter((int)(v % 8), 0, 7)));
        parts.push_back(part);
        for (int i = 0; i < after_it; i++) parts.push_back(IDiscreteParameters::shared_ptr(new IntParameter((int)(v / 2 % 4), 0, 3)));
        boost::shared_ptr<CompositeDiscreteParameters> c(new CompositeDiscreteParameters());
        c->Initialize(parts);
        return c;
    };
    auto value = [&] { return (unsigned)s.draw((1u << bits) - 1); };
    s.note("bits", bits); s.note("composite", composite); s.note("parts before", before_it); s.note("parts after", after_it);
    std::vector<std::shared_ptr<Individual>> all;
    std::vector<bool> whole;            // not in the middle of something
    for (int i = s.range(1, 3); i > 0; i--) { all.push_back(std::make_shared<Individual>()); whole.push_back(true); }
    boost::shared_ptr< ::Mutator> m(new ::Mutator(0.4));
    bool failed = false;
    std::vector<bool> had(all.size(), false);
    for (int q = s.range(2, 14); q > 0; q--)
    {
        size_t k = s.index(all.size()), l = s.index(all.size());
        Individual& x = *all[k];
        Individual& y = *all[l];
        Seen x0 = look(x), y0 = look(y);
        int op = !x0.initialized ? 0 : s.range(0, 8);
        if ((op == 1 && !y0.initialized) || (op == 4 && (!y0.initialized || k == l))) continue;
        if (!whole[k] && op != 1 && op != 2 && op != 6 && op != 7) continue;   // undefined until it is set anew
        if (!whole[l] && (op == 1 || op == 4)) continue;
        Fuse fuse, calm, in_mutation;
        g_fuse[InMutation] = &in_mutation; g_fuse[InContext] = &calm;
        fuse.type = in_mutation.type = s.range(0, kTypes - 1); fuse.id = in_mutation.id = s.range(1, 1000);
        fuse.at = s.chance(0.6) ? s.range(0, 5) : -1;
        if (op == 3 && s.chance(0.3)) in_mutation.at = 0;
        unsigned v = value();
        uint64_t seed = s.draw(0xffffffff) * 0x9e3779b97f4a7c15ULL + 1;
        rc::Image image;
        image.save();
        std::string text;
        static const char* const names[] = {"initialize", "assign", "random", "mutate", "cross", "fitness", "read", "renew", "initialize again"};
        s.note("step", std::string(names[op])); s.note("on", k); s.note("other", l); s.note("value", v); s.note("throws at", fuse.at); s.note("type", fuse.type);
        IDiscreteParameters::shared_ptr p = sample(v), other;
        if (op == 6)
        {
            Individual w(p.get());
            w.set_fitness(v);
            std::stringstream o; o << w;
            text = o.str();
        }
        auto act = [&](Individual& x, Individual& y)
        {
            rc::state = seed; image.restore();
            m->reset(seed);
            switch (op)
            {
            case 0: case 8: x.Initialize(p.get()); break;
            case 1: x = y; break;
            case 2: x.SetRandomChromosome(); break;
            case 3: x.Mutate(m); break;
            case 4: x.Crossover(&y); break;
            case 5: x.set_fitness(v); x.IncreaseTimesChosenForCrossover(); break;
            case 6: { std::stringstream in(text); in >> x; break; }
            default: { Individual w(p.get()); x = w; }
            }
        };
        // what it does to fresh ones in the same state
        arm.fuse = nullptr;
        std::shared_ptr<Individual> fx(new Individual(x)), fy(k == l ? fx : std::shared_ptr<Individual>(new Individual(y)));
        arm.fuse = &fuse;
        std::string how = outcome([&] { act(x, y); });
        arm.fuse = nullptr;
        bool blown = fuse.blown || in_mutation.blown;
        Seen x1 = look(x), y1 = look(y);
        if (blown)
        {
            const Fuse& f = fuse.blown ? fuse : in_mutation;
            check(how == thrown(f.type, f.id), pbt::Lit{names[op]}, ": user code ", thrown(f.type, f.id), ", but the call ", how);
            failed = true;
            had[k] = true;
            s.label(std::string("failed to ") + names[op]);
            if (op == 0 || op == 1 || op == 7 || op == 8)
            {
                check(x1 == x0, "a failure to ", pbt::Lit{names[op]}, " has changed the individual from ", x0.text(), " to ", x1.text());
                check(y1 == y0 || k == l, "a failure to ", pbt::Lit{names[op]}, " has changed the other individual from ", y0.text(), " to ", y1.text());
            }
            else
            {
                whole[k] = false;
                if (op == 4) { whole[l] = false; had[l] = true; }
            }
            continue;
        }
        in_mutation.at = -1;
        std::string want = outcome([&] { act(*fx, *fy); });
        check(how == want, pbt::Lit{names[op]}, ": ", how, ", of a fresh individual ", want);
        if (op == 2 || op == 6) { x1.times = 0; }
        Seen w = look(*fx);
        if (op == 2 || op == 6) w.times = 0;
        if (!whole[k] && (op == 2 || op == 6 || op == 1 || op == 7)) whole[k] = true;
        check(x1 == w, pbt::Lit{names[op]}, had[k] ? " after a failure" : "", ": ", x1.text(), ", of a fresh individual ", w.text());
        if ((op == 0 && !x0.initialized) || op == 7)
        {
            Individual w(p.get());
            check(x1 == look(w), "initialized ", had[k] ? "after a failure" : "", " it is ", x1.text(), ", a fresh one ", look(w).text());
        }
        if (had[k] && how == "returned") { s.nontrivial(); s.label("individual used after a failure"); }
    }
    // composites
    for (int q = s.range(0, 4); q > 0; q--)
    {
        boost::shared_ptr<CompositeDiscreteParameters> c(new CompositeDiscreteParameters());
        std::vector<IDiscreteParameters::shared_ptr> parts;
        for (int i = s.range(1, 4); i > 0; i--) parts.push_back(s.flip() ? IDiscreteParameters::shared_ptr(new Part(value(), bits, &arm)) : IDiscreteParameters::shared_ptr(new IntParameter(s.range(0, 7), 0, 7)));
        bool equals = s.flip();
        size_t n = equals ? (size_t)s.range(1, 3) : parts.size();
        s.note("composite of equals", equals); s.note("parts", n);
        auto initialize = [&](CompositeDiscreteParameters& c) { if (equals) c.Initialize(parts[0], n); else c.Initialize(parts); };
        bool done = false;
        for (int i = 0; i < 6 && !done; i++)
        {
            Fuse f;
            f.type = s.range(0, kTypes - 1); f.id = s.range(1, 1000);
            f.at = i < 5 && s.flip() ? s.range(0, 3) : -1;
            s.note("throws at", f.at);
            arm.fuse = &f;
            std::string how = outcome([&] { initialize(*c); });
            arm.fuse = nullptr;
            check(how == (f.blown ? thrown(f.type, f.id) : "returned"), "initialization of the composite ", how, ", user code ", f.blown ? thrown(f.type, f.id) : "returned");
            done = !f.blown;
            if (f.blown) { failed = true; s.label("failed to initialize a composite"); }
        }
        CompositeDiscreteParameters fresh;
        initialize(fresh);
        std::vector<unsigned> have, want;
        check(c->GetNumberOfParameters() == fresh.GetNumberOfParameters() && c->GetChromosomeSize() == fresh.GetChromosomeSize(), "a composite has ", c->GetNumberOfParameters(), " parts and ", c->GetChromosomeSize(),
            " genes, a fresh one ", fresh.GetNumberOfParameters(), " and ", fresh.GetChromosomeSize());
        for (int i = s.range(1, 5); i > 0; i--)
        {
            ChromosomeType g(fresh.GetChromosomeSize());
            for (size_t k = 0; k < g.size(); k++) g[k] = s.flip();
            Fuse f;
            f.type = s.range(0, kTypes - 1); f.id = s.range(1, 1000);
            f.at = s.chance(0.4) ? s.range(0, 3) : -1;
            int op = s.range(0, 2);
            ChromosomeType out(g.size()), out2(g.size());
            std::unique_ptr<IDiscreteParameters> copy;
            s.note("does", op); s.note("chromosome", ga::bits(g)); s.note("throws at", f.at);
            arm.fuse = &f;
            std::string how = outcome([&] { if (op == 0) c->SetFromChromosome(g.begin(), g.end()); else if (op == 1) c->SetChromosome(out.begin(), out.end()); else copy.reset(c->Clone()); });
            arm.fuse = nullptr;
            check(how == (f.blown ? thrown(f.type, f.id) : "returned"), "the composite ", how, ", user code ", f.blown ? thrown(f.type, f.id) : "returned");
            if (f.blown)
            {
                failed = true;
                // set anew
                c->SetFromChromosome(g.begin(), g.end());
                fresh.SetFromChromosome(g.begin(), g.end());
            }
            else if (op == 0) fresh.SetFromChromosome(g.begin(), g.end());
            have.clear(); want.clear();
            part_values(c.get(), have); part_values(&fresh, want);
            check(have == want, "a composite has the values ", have, ", a fresh one ", want);
            if (copy) { have.clear(); part_values(copy.get(), have); check(have == want, "a copy of the composite has the values ", have, ", the composite ", want); }
            c->SetChromosome(out.begin(), out.end()); fresh.SetChromosome(out2.begin(), out2.end());
            check(out == out2, "a composite writes ", ga::bits(out), ", a fresh one ", ga::bits(out2));
            if (failed) { s.nontrivial(); s.label("composite used after a failure"); }
        }
    }
}

Property pbt::property()
{
    Property p = {"C36",
        {{"genetic", 4, genetic}, {"continuous", 4, continuous}, {"fast_wavelet", 3, fast_wavelet}, {"windowed", 1, windowed}, {"pieces", 2, pieces}},
        12000, 600000,
        "Histories of calls on one object in which the user's objective, parameters, mutator, generation callback, wavelet function, scales or progress callback "
        "throw one of five types of exception at a generated call: genetic algorithms (with and without cache), all continuous optimisers, fast wavelet transforms "
        "(with and without cache), windowed transforms; each call is compared with the same call on a fresh object. Non-trivial: an object was used after a failed call.",
        {"User code that throws leaves its own state as it was.",
         "With several threads the number of evaluations of a failed run is open."}};
    p.batch = 100;
    return p;
}
