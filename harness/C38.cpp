// C38: a refused call changes nothing.
//
// A history of calls on a few objects is made twice, on equal objects and from the same
// state of the random generator: the second time without the calls that were refused the
// first time. All others must give the same.
#include "work.h"
#include "ga_util.h"
using namespace pbt;
using namespace k52::dsp;

namespace
{
// What a call gave
struct Seen
{
    std::vector<double> numbers;
    std::vector<std::string> texts;
    std::string threw;
    void operator()(double v) { numbers.push_back(v); }
    void operator()(const std::vector<double>& v) { numbers.push_back((double)v.size()); numbers.insert(numbers.end(), v.begin(), v.end()); }
    void operator()(const Sig& v) { numbers.push_back((double)v.size()); for (auto& e : v) { numbers.push_back(e.real()); numbers.push_back(e.imag()); } }
    void operator()(const std::string& s) { texts.push_back(s); }
    bool operator==(const Seen& o) const
    {
        if (numbers.size() != o.numbers.size() || texts != o.texts || threw != o.threw) return false;
        for (size_t i = 0; i < numbers.size(); i++)
            if (!(numbers[i] == o.numbers[i] || (numbers[i] != numbers[i] && o.numbers[i] != o.numbers[i]))) return false;
        return true;
    }
};
void put(std::ostream& o, const Seen& s)
{
    pbt::put(o, s.numbers);
    if (!s.texts.empty()) { o << " "; pbt::put(o, s.texts); }
    if (!s.threw.empty()) { o << " threw "; pbt::put(o, s.threw); }
}
std::string text(const Seen& s) { std::ostringstream o; put(o, s); return o.str(); }

// A call; what makes the objects comes first
template<class Z> struct Step
{
    std::string what;
    std::function<void(Z&, Seen&)> call;
};

template<class Z> struct History
{
    std::function<std::shared_ptr<Z>()> make;
    std::vector<Step<Z>> steps;
    void add(const std::string& what, std::function<void(Z&, Seen&)> f) { steps.push_back({what, f}); }
    // the calls that are not skipped; where one throws, how
    std::vector<Seen> run(const std::vector<bool>& skip, std::shared_ptr<Z>& z) const
    {
        z = make();
        std::vector<Seen> out(steps.size());
        for (size_t i = 0; i < steps.size(); i++)
        {
            if (skip[i]) continue;
            Seen& t = out[i];
            try { steps[i].call(*z, t); }
            catch (const Failure&) { throw; }
            catch (const Discard&) { throw; }
            catch (const std::exception& e) { t.threw = std::string("exception ") + e.what(); }
            catch (const char* e) { t.threw = std::string("text ") + e; }
            catch (...) { t.threw = "something"; }
        }
        return out;
    }
    void compare(Src& s) const
    {
        for (auto& e : steps) s.note("call", e.what);
        rc::Point here = rc::Point::here();
        std::shared_ptr<Z> a, b;
        std::vector<Seen> first = run(std::vector<bool>(steps.size(), false), a);
        double left = k52::common::Random::Instance().GetBaseRandomQuantity();
        std::vector<bool> skip(steps.size());
        size_t refused = 0, later = 0;
        std::string names;
        for (size_t i = 0; i < steps.size(); i++)
        {
            skip[i] = !first[i].threw.empty();
            if (skip[i]) { refused++; names += (names.empty() ? "" : "; ") + steps[i].what + " (" + first[i].threw + ")"; }
            else if (refused) later++;
        }
        s.label(refused == 0 ? "nothing refused" : refused < 3 ? "1 to 2 refused" : "3 or more refused");
        if (refused == 0) return;
        if (later) s.nontrivial();
        // without all that were refused, and without one of them, which no other may need to be refused
        size_t one = s.index(refused);
        for (int round = 0; round < (refused > 1 ? 2 : 1); round++)
        {
            if (round)
            {
                size_t k = 0;
                for (size_t i = 0; i < steps.size(); i++)
                    if (skip[i] && k++ != one) skip[i] = false;
                    else if (skip[i]) names = steps[i].what + " (" + first[i].threw + ")";
            }
            here.restore();
            std::vector<Seen> second = run(skip, b);
            for (size_t i = 0; i < steps.size(); i++)
                if (!skip[i])
                    check(first[i] == second[i], steps[i].what, " gave ", text(first[i]), " after refused calls (", names, ") and ", text(second[i]), " without them");
            check(left == k52::common::Random::Instance().GetBaseRandomQuantity(), "random numbers are others after the refused calls (", names, ")");
        }
    }
};

std::string name(const char* what, size_t i) { return std::string(what) + " of " + std::to_string(i); }

// ---- discrete parameters
struct Params { std::vector<par::IDiscreteParameters::shared_ptr> p; };
void look(par::IDiscreteParameters* p, Seen& t)
{
    try
    {
        t((double)p->GetChromosomeSize());
        t(par::values(p));
        par::ChromosomeType c(p->GetChromosomeSize());
        if (p->CheckConstraints() && par::in_range(p)) { p->SetChromosome(c.begin(), c.end()); t(par::bits(c)); }
    }
    catch (const std::logic_error& e) { t(e.what()); }
}
par::ChromosomeType gen_bits(Src& s, size_t n)
{
    par::ChromosomeType c(n);
    uint64_t st = s.draw(0xffffffff);
    for (size_t i = 0; i < n; i++) { st = opt::mix(st); c[i] = st & 1; }
    return c;
}
}

static void parameters(Src& s)
{
    rc::begin(s, true);
    std::vector<par::Desc> d;
    std::vector<bool> fresh;          // composites that are not initialized yet
    for (int i = s.range(1, 3); i > 0; i--) { d.push_back(par::gen(s, 2, 12)); fresh.push_back(s.chance(0.15)); }
    for (auto& e : d) s.note("parameters", par::text(e));
    History<Params> h;
    h.make = [=]
    {
        std::shared_ptr<Params> z(new Params());
        for (size_t i = 0; i < d.size(); i++) z->p.push_back(fresh[i] ? par::IDiscreteParameters::shared_ptr(new par::CompositeDiscreteParameters()) : par::make(d[i]));
        return z;
    };
    // sizes change only when a fresh composite is initialized
    std::vector<size_t> size;
    for (auto& e : d) size.push_back(par::make(e)->GetChromosomeSize());
    for (int n = s.range(2, 14); n > 0; n--)
    {
        size_t i = s.index(d.size()), j = s.index(d.size());
        switch (s.range(0, 9))
        {
        case 0: h.add(name("values", i), [=](Params& z, Seen& t) { look(z.p[i].get(), t); }); break;
        case 1:
        case 2:
            {
                size_t m = s.flip() ? size[i] : s.chance(0.3) ? size[i] + s.range(1, 5) : (size_t)s.range(0, (int)std::min<size_t>(size[i] + 1, 60));
                par::ChromosomeType c = gen_bits(s, m);
                h.add(name("setting from a chromosome", i) + " by " + std::to_string(m), [=](Params& z, Seen&) { z.p[i]->SetFromChromosome(c.begin(), c.end()); });
                break;
            }
        case 3:
            {
                size_t m = s.flip() ? size[i] : (size_t)s.range(0, (int)std::min<size_t>(size[i] + 3, 60));
                h.add(name("chromosome", i) + " of size " + std::to_string(m), [=](Params& z, Seen& t)
                {
                    par::IDiscreteParameters* p = z.p[i].get();
                    par::ChromosomeType c(m, true), before = c;
                    // what is out of range has no chromosome
                    try { if (!p->CheckConstraints() || !par::in_range(p)) return; } catch (const std::logic_error&) {}
                    try { p->SetChromosome(c.begin(), c.end()); }
                    catch (const std::exception&) { check(c == before, "refused to give a chromosome of size ", m, " but changed the one it was given to ", par::bits(c)); throw; }
                    t(par::bits(c));
                });
                break;
            }
        case 4:
            h.add(name("comparing", i) + " with " + std::to_string(j), [=](Params& z, Seen& t)
            {
                t((double)z.p[i]->HasSameMetaParameters(z.p[j].get()));
            });
            break;
        case 5:
            {
                bool with_sample = s.flip();
                size_t copies = s.range(0, 3);
                h.add(name("initializing", i) + (with_sample ? " with copies" : " with parts"), [=](Params& z, Seen& t)
                {
                    par::CompositeDiscreteParameters* c = dynamic_cast<par::CompositeDiscreteParameters*>(z.p[i].get());
                    if (!c) return;
                    par::IDiscreteParameters::shared_ptr part = par::make(d[j]);
                    if (with_sample) c->Initialize(part, copies);
                    else c->Initialize(std::vector<par::IDiscreteParameters::shared_ptr>(copies, part));
                    t("initialized");
                });
                break;
            }
        case 6:
            {
                size_t k = s.range(0, 5);
                int change = s.range(0, 2);
                h.add(name("part", i) + " " + std::to_string(k), [=](Params& z, Seen& t)
                {
                    par::CompositeDiscreteParameters* c = dynamic_cast<par::CompositeDiscreteParameters*>(z.p[i].get());
                    if (!c) return;
                    t((double)c->GetNumberOfParameters());
                    par::IDiscreteParameters::shared_ptr p = c->GetParameter(k);
                    if (change == 1) { par::ChromosomeType b(p->GetChromosomeSize(), true); p->SetFromChromosome(b.begin(), b.end()); }
                    look(p.get(), t);
                });
                break;
            }
        case 7:
            {
                int bad = s.weighted({2, 1, 1, 1});
                size_t where = s.draw(20);
                double f = s.unit();
                h.add(name("setting values", i) + (bad == 0 ? "" : bad == 1 ? " of which one is too large" : bad == 2 ? " of which one is no number" : ", one too many"), [=](Params& z, Seen&)
                {
                    if (par::DoubleParametersArray* a = dynamic_cast<par::DoubleParametersArray*>(z.p[i].get()))
                    {
                        double lo = a->get_min_value(), hi = a->get_max_value();
                        std::vector<double> v(a->get_number_of_parameters());
                        for (size_t k = 0; k < v.size(); k++) v[k] = std::min(hi, lo + (hi - lo) * std::fmod(f * (k + 1), 1));
                        if (!v.empty() && bad == 1) v[where % v.size()] = hi + (hi - lo);
                        if (!v.empty() && bad == 2) v[where % v.size()] = std::numeric_limits<double>::quiet_NaN();
                        if (bad == 3) v.push_back(lo);
                        a->SetValues(v);
                    }
                    else if (par::DoubleParameter* p = dynamic_cast<par::DoubleParameter*>(z.p[i].get())) p->SetValue(p->get_min_value() + f * (p->get_max_value() - p->get_min_value()));
                    else if (par::IntParameter* p = dynamic_cast<par::IntParameter*>(z.p[i].get())) p->set_value(p->get_min_value() + (int)(f * ((double)p->get_max_value() - p->get_min_value())));
                });
                break;
            }
        case 8:
            {
                bool into_another = s.flip();
                h.add(name("copying", i), [=](Params& z, Seen& t)
                {
                    par::IDiscreteParameters::shared_ptr c(z.p[i]->Clone());
                    look(c.get(), t);
                    if (into_another) z.p[i] = c;
                });
                break;
            }
        default:
            {
                // objects that are refused
                int kind = s.range(0, 3);
                double lo = s.range(-3, 3), hi = lo + s.range(-2, 2), v = lo + s.range(-2, 2), prec = s.pick(std::vector<double>{0.5, 1, 100});
                h.add("making parameters " + show(v) + " in " + show(lo) + ".." + show(hi), [=](Params&, Seen& t)
                {
                    if (kind == 0) { par::DoubleParameter p(v, lo, hi, prec); look(&p, t); }
                    else if (kind == 1) { par::DoubleParametersArray p(lo, hi, prec, 2); look(&p, t); }
                    else if (kind == 2)
                    {
                        opt::ContinuousParametersArray p(3);
                        p.SetValues({1, 2, 3});
                        try { p.SetValues({4, 5}); } catch (const std::invalid_argument&) {}
                        t(p.GetValues());
                        check(p.GetValues() == std::vector<double>({1, 2, 3}), "refused values have changed those there were to ", p.GetValues());
                        p.SetValues({4, 5, 6, 7});
                    }
                    else { par::CompositeDiscreteParameters p; p.CheckConstraints(); }
                });
            }
        }
    }
    for (size_t i = 0; i < d.size(); i++) h.add(name("values", i), [=](Params& z, Seen& t) { look(z.p[i].get(), t); });
    h.compare(s);
}

// ---- individuals, mutators and random numbers
namespace
{
struct People
{
    std::vector<boost::shared_ptr<k52::optimization::Individual>> p;
    ga::IMutator::shared_ptr mutator;
    boost::shared_ptr<k52::optimization::LinearMutator> linear;
    boost::shared_ptr<k52::optimization::FlipBitMutator> flip;
};
void look(const k52::optimization::Individual& i, Seen& t)
{
    t((double)i.HasFitness());
    if (i.HasFitness()) t(i.get_fitness());
    t((double)i.get_times_chosen_for_crossover());
    try
    {
        t(par::bits(i.GetChromosome()));
        t(par::values(i.GetParametersAccordingToChromosome()));
        t((double)i.IsValid());
    }
    catch (const std::logic_error& e) { t(e.what()); }
}
}

static void individuals(Src& s)
{
    using k52::optimization::Individual;
    rc::begin(s, true);
    std::vector<par::Desc> d;
    for (int i = s.range(1, 2); i > 0; i--)
    {
        par::Desc e;
        do e = par::gen(s, 1, 8); while (!par::often_valid(e));
        d.push_back(e);
    }
    for (auto& e : d) s.note("parameters", par::text(e));
    int count = s.range(1, 4);
    std::vector<int> of(count);       // -1: not initialized
    for (auto& e : of) e = s.chance(0.2) ? -1 : (int)s.index(d.size());
    double p = s.pick(std::vector<double>{0.3, 0.5}), q = s.unit();
    int inverse = s.range(3, 20);
    uint64_t seed = s.draw(0xffff);
    History<People> h;
    h.make = [=]
    {
        std::shared_ptr<People> z(new People());
        for (int e : of)
        {
            z->p.push_back(boost::shared_ptr<Individual>(new Individual()));
            if (e >= 0) z->p.back()->Initialize(par::make(d[e]).get());
        }
        z->mutator.reset(new ga::Mutator(p, seed));
        z->linear.reset(new k52::optimization::LinearMutator(p, q));
        z->flip.reset(new k52::optimization::FlipBitMutator(1.0 / inverse));
        return z;
    };
    for (int n = s.range(2, 16); n > 0; n--)
    {
        size_t i = s.index(count), j = s.index(count);
        switch (s.range(0, 17))
        {
        case 0: h.add(name("state", i), [=](People& z, Seen& t) { look(*z.p[i], t); }); break;
        case 1:
            {
                size_t k = s.index(d.size());
                h.add(name("initializing", i), [=](People& z, Seen&) { z.p[i]->Initialize(par::make(d[k]).get()); });
                break;
            }
        case 2: h.add(name("random chromosome", i), [=](People& z, Seen& t) { t(z.p[i]->SetRandomChromosome()); }); break;
        case 3:
        case 4: h.add(name("crossover", i) + " and " + std::to_string(j), [=](People& z, Seen& t) { t((double)z.p[i]->Crossover(z.p[j].get())); }); break;
        case 5: h.add(name("mutation", i), [=](People& z, Seen& t) { t(z.p[i]->Mutate(z.mutator)); }); break;
        case 6:
        case 7:
            {
                double v = s.chance(0.25) ? (s.chance(0.3) ? NAN : -s.unit() - 1e-300) : s.chance(0.5) ? s.range(0, 9) : s.unit();
                h.add(name("fitness", i) + " = " + show(v), [=](People& z, Seen&) { z.p[i]->set_fitness(v); });
                break;
            }
        case 8: h.add(name("fitness", i), [=](People& z, Seen& t) { t(z.p[i]->get_fitness()); }); break;
        case 9:
            {
                bool reset = s.chance(0.3);
                h.add(name(reset ? "no times chosen" : "times chosen", i), [=](People& z, Seen&) { if (reset) z.p[i]->ResetTimesChosenForCrossover(); else z.p[i]->IncreaseTimesChosenForCrossover(); });
                break;
            }
        case 10: h.add(name("statistics", i), [=](People& z, Seen& t) { k52::optimization::IndividualStatistics st = z.p[i]->get_individual_statistics(); t(st.fitness); t(st.times_chosen_for_crossover); }); break;
        case 11:
            {
                int precision = s.range(1, 12);
                h.add(name("writing", i), [=](People& z, Seen& t)
                {
                    std::ostringstream o;
                    o.precision(precision);
                    o << "before ";
                    try { o << *z.p[i]; }
                    catch (const std::exception& e)
                    {
                        check(o.str() == "before ", "an individual that can not be written (", std::string(e.what()), ") has written ", o.str());
                        check(o.precision() == precision, "an individual that can not be written has changed the precision of the stream to ", (int)o.precision());
                        throw;
                    }
                    t(o.str());
                    t((double)o.precision());
                });
                break;
            }
        case 12:
        case 13:
            {
                // a text of another size, of other characters, or without a valid fitness
                int kind = s.range(0, 5);
                uint64_t b = s.draw(0xffffffff);
                double v = s.unit();
                h.add(name("reading", i) + " text " + std::to_string(kind), [=](People& z, Seen&)
                {
                    size_t size;
                    try { size = z.p[i]->GetChromosome().size(); } catch (const std::logic_error&) { size = 4; }
                    if (size == 0) return;
                    std::string c;
                    uint64_t st = b;
                    for (size_t k = 0; k < size + (kind == 1 ? 1 : 0); k++) { st = opt::mix(st); c += st & 1 ? '1' : '0'; }
                    if (kind == 2) c[b % c.size()] = '2';
                    std::istringstream in("Chromosome:\t" + c + (kind == 5 ? "" : "\tFitness:\t") + (kind == 3 ? "none" : kind == 4 ? "-1" : show(v)) + "\n");
                    if (kind == 5) in.str("Chromosome:\t" + c);
                    in >> *z.p[i];
                });
                break;
            }
        case 14:
            {
                int kind = s.range(0, 2);
                h.add(name(kind ? "copying" : "assigning to", i) + " from " + std::to_string(j), [=](People& z, Seen&)
                {
                    // what is not initialized takes nothing with it
                    try { z.p[j]->GetChromosome(); } catch (const std::logic_error&) { return; }
                    if (kind == 0) *z.p[i] = *z.p[j];
                    else z.p[i].reset(new Individual(*z.p[j]));
                });
                break;
            }
        case 15:
            {
                int kind = s.range(0, 4);
                double v = s.pick(std::vector<double>{0, 0.25, 1, -0.25, 1.25, std::numeric_limits<double>::quiet_NaN()});
                static const char* const what[] = {"event", "probability", "linear mutator", "flip bit mutator", "random numbers"};
                h.add(std::string(what[kind]) + " of " + show(v), [=](People&, Seen& t)
                {
                    k52::common::Random& r = k52::common::Random::Instance();
                    if (kind == 0) t((double)r.CheckEventOutcome(v));
                    else if (kind == 1) k52::common::Random::ValidateProbability(v);
                    else if (kind == 2) { k52::optimization::LinearMutator m(0.5, v); }
                    else if (kind == 3) { k52::optimization::FlipBitMutator m(v); }
                    else if (v < 0) t(r.GetUniformlyDistributedDiscreteRandomQuantity(101, 100));
                    else { t(r.GetBaseRandomQuantity()); t((double)r.GetRandomBool()); t(r.GetUniformlyDistributedDiscreteRandomQuantity(0, 100)); }
                });
                break;
            }
        default:
            {
                // also for generations there are none of
                bool linear = s.chance(0.7);
                ga::MutationContext c;
                c.max_number_of_generations = s.range(1, 6);
                c.current_generation = s.range(0, 12);
                par::ChromosomeType b = gen_bits(s, s.range(0, 20));
                h.add(std::string(linear ? "linear" : "flip bit") + " mutation in generation " + std::to_string(c.current_generation) + " of " + std::to_string(c.max_number_of_generations), [=](People& z, Seen& t)
                {
                    k52::optimization::IMutator* m = linear ? (k52::optimization::IMutator*)z.linear.get() : z.flip.get();
                    m->ApplyNewMutationContext(c);
                    par::ChromosomeType own = b;
                    try { m->MutateChromosome(&own); }
                    catch (const std::exception&) { check(own == b, "a chromosome that was refused has become ", par::bits(own)); t("refused"); return; }
                    t(par::bits(own));
                });
            }
        }
    }
    for (int i = 0; i < count; i++) h.add(name("state", i), [=](People& z, Seen& t) { look(*z.p[i], t); });
    h.compare(s);
}

// ---- settings and caches
namespace
{
struct Store
{
    boost::shared_ptr<k52::SettingsManager> m;
    typedef k52::common::Cache<int, double> C;
    C::shared_ptr c;
};
}

static void storage(Src& s)
{
    rc::begin(s, true);
    static const std::vector<std::string> names = {"a", "a.b", "b", "b.c.d", "key", "none", "a.none", "", ".", "b..c"};
    std::vector<std::string> args;
    for (int i = s.range(0, 4); i > 0; i--) args.push_back("--" + s.pick(std::vector<std::string>{"a", "a.b", "b", "b.c.d", "key"}) + "=" + s.pick(std::vector<std::string>{"1", "2.5", "text", "", "true", " 7"}));
    s.note("arguments", args);
    History<Store> h;
    h.make = [=]
    {
        std::shared_ptr<Store> z(new Store());
        std::vector<const char*> argv(1, "program");
        for (auto& a : args) argv.push_back(a.c_str());
        z->m.reset(new k52::SettingsManager((int)argv.size(), &argv[0]));
        z->c = Store::C::Create(1);
        return z;
    };
    auto look = [=](Store& z, Seen& t)
    {
        for (auto& n : names) t(z.m->get<std::string>(n, "-"));
        for (int k = 0; k < 6; k++) { t((double)z.c->IsCached(k)); if (z.c->IsCached(k)) t(z.c->GetCachedValue(k)); }
    };
    for (int n = s.range(2, 14); n > 0; n--)
    {
        std::string key = s.pick(names);
        int k = s.range(0, 5);
        double v = s.range(0, 50) / 4.0;
        switch (s.range(0, 6))
        {
        case 0: h.add("integer " + key, [=](Store& z, Seen& t) { t(z.m->get<int>(key)); }); break;
        case 1: h.add("number " + key, [=](Store& z, Seen& t) { t(z.m->get<double>(key)); }); break;
        case 2: h.add("truth " + key, [=](Store& z, Seen& t) { t((double)z.m->get<bool>(key)); t(z.m->get<double>(key, v)); }); break;
        case 3:
            {
                bool as_text = s.flip();
                if (key.empty() || key[0] == '.') key = "key";
                h.add("putting " + key, [=](Store& z, Seen& t) { t((double)(as_text ? z.m->put(key, std::string("x" + show(v))) : z.m->put(key, v))); });
                break;
            }
        case 4: h.add("cached value of " + std::to_string(k), [=](Store& z, Seen& t) { t(z.c->GetCachedValue(k)); }); break;
        case 5:
            {
                bool several = s.flip();
                h.add("adding " + std::to_string(k), [=](Store& z, Seen&)
                {
                    if (!several) { z.c->AddValue(k, v); return; }
                    std::vector<Store::C::CacheRecord> r(1, Store::C::CacheRecord(k, v));
                    r.push_back(Store::C::CacheRecord((k + 1) % 6, v + 1));
                    z.c->AddValues(r);
                });
                break;
            }
        default: h.add("everything", look);
        }
    }
    h.add("everything", look);
    h.compare(s);
}

// ---- signals
namespace
{
class Windowed : public Wavelet { public: Windowed() {} };
// a list of scales some of which are refused
class Scales : public IScale
{
public:
    explicit Scales(const std::vector<double>& v) : v_(v) {}
    virtual std::vector<double> GetScales() const { return v_; }
private:
    std::vector<double> v_;
};
struct Signals
{
    AkimaSpline::shared_ptr spline;
    boost::shared_ptr<Windowed> windowed;
    IFourierTransform::shared_ptr fourier;
    boost::shared_ptr<FourierBasedCircularConvolution> convolution;
    boost::shared_ptr<InverseFourierTransform> inverse;
    std::vector<boost::shared_ptr<FastWaveletTransform>> fast;
    IWavelet::shared_ptr wavelets[3];
};
}

static void signals(Src& s)
{
    rc::begin(s, true);
    size_t N = (size_t)s.range(1, 16);
    int count = s.range(1, 5), L = 2 * s.range(1, 8), lo = s.range(1, 4);
    std::vector<double> good = {1, 2.5}, bad = s.pick(std::vector<std::vector<double>>{{1, 0, 2}, {2, -1}, {0}, {1, 2}});
    double cache = s.pick(std::vector<double>{-1, 10});
    Sig x = gen_signal(s, N, 0);
    s.note("length", N); s.note("signal", x);
    History<Signals> h;
    h.make = [=]
    {
        std::shared_ptr<Signals> z(new Signals());
        z->spline = AkimaSpline::Create();
        z->windowed.reset(new Windowed());
        z->windowed->count(count); z->windowed->max_lenght(L); z->windowed->min_lenght(lo);
        z->fourier.reset(new FastFourierTransform(N));
        z->convolution.reset(new FourierBasedCircularConvolution(z->fourier));
        z->inverse.reset(new InverseFourierTransform(z->fourier));
        for (auto& v : {good, bad}) z->fast.push_back(boost::shared_ptr<FastWaveletTransform>(new FastWaveletTransform(IScale::shared_ptr(new Scales(v)), N, cache)));
        for (int k = 0; k < 3; k++) z->wavelets[k] = work::wavelet(k);
        return z;
    };
    // sizes that are set stay, so that what there is of the wavelet always fits
    std::vector<double> at = {-0.5, 0, 0.3, 1, 2.25, 3.5, 4, 7, 1e300, std::numeric_limits<double>::quiet_NaN()};
    for (int n = s.range(2, 14); n > 0; n--)
    {
        switch (s.range(0, 9))
        {
        case 0:
        case 1:
            {
                int a = s.range(2, 8), b = s.chance(0.6) ? a : s.range(2, 8);
                std::vector<double> u, v;
                double from = s.range(-2, 2);
                for (int i = 0; i < a; i++) { u.push_back(from); from += s.range(1, 3) / 2.0; }
                for (int i = 0; i < b; i++) v.push_back(s.range(-5, 5));
                bool unordered = s.chance(0.2);
                if (unordered) { if (s.chance(0.2)) u[s.index(u.size())] = NAN; else { size_t i = s.index(u.size() - 1); u[i] = u[i + 1] + s.range(0, 1); } }
                h.add("training by " + std::to_string(a) + (unordered ? " unordered" : "") + " and " + std::to_string(b) + " numbers", [=](Signals& z, Seen&) { z.spline->Initialize(u, v); });
                break;
            }
        case 2:
            {
                double e = s.flip() ? s.pick(at) : s.real(-3, 8);
                h.add("spline at " + show(e), [=](Signals& z, Seen& t) { t(z.spline->Value(e)); });
                break;
            }
        case 3:
            {
                int k = s.range(0, 3);
                h.add(k == 3 ? "no function of the windowed wavelet" : "function of the windowed wavelet " + std::to_string(k), [=](Signals& z, Seen&) { z.windowed->base_function(k == 3 ? IWavelet::shared_ptr() : z.wavelets[k]); });
                break;
            }
        case 4:
            {
                bool linear = s.flip();
                h.add("making the windowed wavelet", [=](Signals& z, Seen&) { z.windowed->createWavelet(linear ? Wavelet::Linear : Wavelet::Log); });
                break;
            }
        case 5:
            {
                std::vector<double> y = work::gen_values(s, L, L);
                int step = s.range(-4, 3);
                if (step < -2) h.add("windowed transform", [=](Signals& z, Seen& t) { t(z.windowed->transform<double>(y.begin())); });
                else h.add("windowed transform, step " + std::to_string(step), [=](Signals& z, Seen& t) { for (auto& r : ContiniousWaveletTransformation(y, z.windowed, step)) t(r); });
                break;
            }
        case 6:
            {
                size_t m = s.chance(0.6) ? N : (size_t)s.range(0, 20);
                size_t m2 = s.chance(0.7) ? m : (size_t)s.range(0, 20);
                Sig a(m), b(m2);
                for (size_t i = 0; i < m; i++) a[i] = x[i % N] + (double)s.range(0, 3);
                for (size_t i = 0; i < m2; i++) b[i] = x[i % N] * (double)s.range(-1, 2);
                int kind = s.range(0, 3);
                static const char* const what[] = {"Fourier transform", "inverse transform", "convolution", "plain convolution"};
                h.add(std::string(what[kind]) + " of " + std::to_string(m) + (kind > 1 ? " and " + std::to_string(m2) : std::string()), [=](Signals& z, Seen& t)
                {
                    if (kind == 0) t(z.fourier->Transform(a));
                    else if (kind == 1) t(z.inverse->Transform(a));
                    else if (kind == 2) t(z.convolution->EvaluateConvolution(a, b));
                    else t(CircularConvolution().EvaluateConvolution(a, b));
                });
                break;
            }
        case 7:
        case 8:
            {
                size_t m = s.chance(0.7) ? N : (size_t)s.range(0, 20), which = s.index(2);
                int k = s.range(0, 2);
                double one = s.chance(0.5) ? -1e9 : s.pick(std::vector<double>{1, 2.5, 0, -1, 4, NAN});
                Sig a(m);
                for (size_t i = 0; i < m; i++) a[i] = x[i % N];
                h.add("wavelet transform " + std::to_string(which) + " of " + std::to_string(m) + (one == -1e9 ? std::string() : " at scale " + show(one)), [=](Signals& z, Seen& t)
                {
                    if (one == -1e9) for (auto& r : z.fast[which]->Transform(a, z.wavelets[k])) t(r);
                    else t(z.fast[which]->TransformOneScale(a, z.wavelets[k], one));
                });
                break;
            }
        default:
            {
                int kind = s.range(0, 3), a = s.range(-1, 3), b = s.range(-1, 3), c = s.range(0, 4);
                h.add("making an object of " + std::to_string(a) + ", " + std::to_string(b) + ", " + std::to_string(c), [=](Signals& z, Seen& t)
                {
                    if (kind == 0) t(LinearScale(a == 3 ? NAN : a, b == 3 ? INFINITY : b, c).GetScales());
                    else if (kind == 1) t(LogarithmicScale(a, b).GetScales());
                    else if (kind == 2) { FastFourierTransform f(c); t(f.Transform(Sig(c, cd(1, 0)))); }
                    else
                    {
                        std::vector<double> v(c + 1, 1.0), none;
                        AkimaWavelet::shared_ptr w = AkimaWavelet::CreateAkimaWavelet(c == 0 ? none : v, v);
                        cd e = w->GetValue(0.1);
                        t(e.real()); t(e.imag());
                    }
                });
            }
        }
    }
    for (double e : at) h.add("spline at " + show(e), [=](Signals& z, Seen& t) { try { t(z.spline->Value(e)); } catch (const std::out_of_range&) { t("outside"); } });
    h.compare(s);
}

// ---- optimizers and pools
namespace
{
struct Solvers
{
    std::vector<k52::optimization::IOptimizer::shared_ptr> o;
    std::vector<ga::GeneticAlgorithm::shared_ptr> g;
    std::vector<boost::shared_ptr<opt::ContinuousParametersArray>> c;
    std::vector<par::IDiscreteParameters::shared_ptr> d;
    std::vector<k52::parallel::IWorkerPool::shared_ptr> pools;
};
long g_reports;
double g_reported;
void on_report(ga::GenerationStatistics st) { g_reports++; g_reported = g_reported * 0.5 + st.get_average_fitness() + st.get_invalid_chromosomes() + st.get_cache_hits(); }
// an objective whose copies count together
class Counting : public opt::ContinuousObjectiveFunction
{
public:
    Counting(const opt::Function& f, std::shared_ptr<std::atomic<long>> calls) : f_(f), calls_(calls) {}
    using ContinuousObjectiveFunction::operator();
    virtual double operator()(const std::vector<double>& x) const
    {
        (*calls_)++;
        if (own_++ >= 300) throw opt::TooLong();
        return f_(x);
    }
    virtual Counting* Clone() const { return new Counting(f_, calls_); }
private:
    opt::Function f_;
    std::shared_ptr<std::atomic<long>> calls_;
    mutable long own_ = 0;
};
// neither kind
class Strange : public k52::optimization::IParameters
{
public:
    virtual Strange* Clone() const { return new Strange(); }
    virtual bool CheckConstraints() const { return true; }
};
}

static void solvers(Src& s)
{
    typedef opt::Function F;
    g_processors = s.chance(0.6) ? 1 : s.range(2, 3);
    s.note("processors", g_processors.load());
    rc::begin(s, true);
    std::vector<conf::Config> configs;
    for (int i = s.range(1, 2); i > 0; i--) configs.push_back(conf::gen_config(s));
    std::vector<ga::Config> ga_configs;
    for (int i = s.range(0, 2); i > 0; i--)
    {
        ga::Config c;
        do c = ga::gen_config(s, 6, 4); while (!par::often_valid(c.d) || c.mutator == 2 || c.mutator == 3 || (c.d.kind == par::Desc::Composite && s.flip()));
        c.cache = s.pick(std::vector<double>{0, 10});
        ga_configs.push_back(c);
    }
    for (auto& c : configs) s.note("optimizer", c.text());
    for (auto& c : ga_configs) s.note("genetic algorithm", c.text() + " of " + par::text(c.d));
    std::vector<opt::Point> starts;
    for (int i = s.range(1, 2); i > 0; i--) { starts.emplace_back(); for (int k = s.range(1, 3); k > 0; k--) starts.back().push_back(opt::simple_real(s, 10)); }
    std::vector<par::Desc> ds;
    for (auto& c : ga_configs) ds.push_back(c.d);
    { par::Desc e; do e = par::gen(s, 1, 6); while (!par::often_valid(e)); ds.push_back(e); }
    // of the same type as those of an algorithm, with other bounds
    if (!ga_configs.empty())
    {
        par::Desc e = ds[s.index(ga_configs.size())];
        if (e.kind == par::Desc::Int && e.imax < 1000000000) { e.imin = e.ival; e.imax = e.ival + s.range(0, 3); }
        if (e.kind == par::Desc::Double || e.kind == par::Desc::Array) { e.dmax += (e.dmax - e.dmin) * s.range(0, 1); e.dprec *= 4; }
        if (par::often_valid(e)) ds.insert(ds.end() - 1, e);
    }
    opt::Function f = opt::gen_function(s, {F::Quadratic, F::Absolute, F::Waves, F::Peaks, F::Steps, F::Rough, F::Constant});
    ga::Function gf = ga::gen_function(s);
    bool grid = s.chance(0.3);
    double step = s.pick(std::vector<double>{1, 2, -1}), glo = s.range(-2, 2), ghi = glo + s.range(-3, 3);
    History<Solvers> h;
    h.make = [=]
    {
        std::shared_ptr<Solvers> z(new Solvers());
        for (auto& c : configs) z->o.push_back(c.make());
        if (grid) z->o.push_back(k52::optimization::IOptimizer::shared_ptr(new work::Grid(step, glo, ghi)));
        for (auto& c : ga_configs) { z->g.push_back(ga::create(c, c.make_mutator())); z->g.back()->OnNextGenerationReadyConnect(on_report); z->o.push_back(z->g.back()); }
        for (auto& e : starts) z->c.push_back(boost::shared_ptr<opt::ContinuousParametersArray>(new opt::ContinuousParametersArray(e)));
        for (auto& e : ds) z->d.push_back(par::make(e));
        z->pools.push_back(k52::parallel::WorkerPoolFactory::CreateWorkerPool(k52::parallel::WorkerPoolFactory::kSequentialWorkerPool));
        if (g_processors > 1) z->pools.push_back(k52::parallel::WorkerPoolFactory::CreateBestWorkerPool());
        return z;
    };
    // what is known when the history is made
    size_t optimizers = configs.size() + (grid ? 1 : 0) + ga_configs.size(), first_ga = configs.size() + (grid ? 1 : 0);
    std::vector<bool> with_grid(optimizers, false);
    if (grid) with_grid[configs.size()] = true;
    auto look = [=](Solvers& z, Seen& t)
    {
        for (auto& e : z.c) t(e->GetValues());
        for (auto& e : z.d) t(par::values(e.get()));
    };
    for (int n = s.range(2, 8); n > 0; n--)
    {
        size_t i = s.index(optimizers);
        bool is_ga = i >= first_ga;
        switch (is_ga && s.chance(0.35) ? s.range(5, 6) : s.range(0, 7))
        {
        case 0:
        case 1:
        case 2:
        case 3:
            {
                // mostly the right kinds of function and parameters
                int kind = s.chance(0.7) ? is_ga : s.range(0, 2), fkind = s.chance(0.8) ? is_ga : !is_ga;
                size_t c = s.index(starts.size()), d = is_ga && s.chance(0.6) ? i - first_ga : s.index(ds.size());
                bool maximize = is_ga ? !s.chance(0.3) : s.flip();
                if (is_ga && kind == 1) while (!par::often_valid(ds[d])) d = ds.size() - 1;
                h.add(std::string(maximize ? "maximizing a " : "minimizing a ") + (fkind ? "discrete" : "continuous") + " function of " + (kind == 0 ? name("continuous parameters", c) : kind == 1 ? name("discrete parameters", d) : "other parameters") + " by " + std::to_string(i), [=](Solvers& z, Seen& t)
                {
                    std::shared_ptr<std::atomic<long>> calls(new std::atomic<long>(0));
                    Counting fo(f, calls);
                    std::shared_ptr<ga::Log> log(new ga::Log());
                    ga::Objective go(gf, log);
                    Strange strange;
                    k52::optimization::IParameters* p = kind == 0 ? (k52::optimization::IParameters*)z.c[c].get() : kind == 1 ? (k52::optimization::IParameters*)z.d[d].get() : &strange;
                    g_reports = 0; g_reported = 0;
                    // a search that does not end is ended by its objective, which is not a refusal
                    try { z.o[i]->Optimize(fkind ? (const k52::optimization::IObjectiveFunction&)go : fo, p, maximize); }
                    catch (const opt::TooLong&) { t("too long"); }
                    catch (const std::exception&)
                    {
                        check(*calls == 0 || !log->evals.size(), "harness: both functions evaluated");
                        if (*calls > 0 || log->evals.size()) { t("ended within"); return; }
                        throw;
                    }
                    t((double)calls->load()); t((double)log->evals.size());
                    t((double)g_reports); t(g_reported);
                    if (kind == 0) t(z.c[c]->GetValues());
                    if (kind == 1) t(par::values(z.d[d].get()));
                });
                break;
            }
        case 4: h.add(name("copying optimizer", i), [=](Solvers& z, Seen&) { k52::optimization::IOptimizer::shared_ptr c(z.o[i]->Clone()); z.o[i] = c; }); break;
        case 5:
        case 6:
            {
                if (!is_ga) break;
                // as many as the population has, or not; of its kind, or not
                size_t g = i - first_ga, m = s.chance(0.75) ? (size_t)ga_configs[g].population : (size_t)s.range(0, 8), of = s.chance(0.7) ? g : s.index(ds.size());
                h.add(name("initial parameters", i) + ": " + std::to_string(m) + " of " + std::to_string(of), [=](Solvers& z, Seen&)
                {
                    std::vector<par::IDiscreteParameters::shared_ptr> v;
                    for (size_t k = 0; k < m; k++) v.push_back(par::make(ds[of]));
                    z.g[g]->SetInitialParameters(v);
                });
                break;
            }
        default:
            {
                int kind = s.range(0, 3);
                std::vector<double> numbers;
                for (int k = s.range(0, 6); k > 0; k--) numbers.push_back(s.range(0, 20));
                h.add("pool", [=](Solvers& z, Seen& t)
                {
                    using namespace k52::parallel;
                    k52::parallel::IWorkerPool& p = *z.pools[(size_t)kind % z.pools.size()];
                    if (kind == 3) { WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool); return; }
                    if (kind == 2) { t((double)WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool)->DoTasks(std::vector<const ITask*>()).size()); p.GetStatistics(); t("statistics"); return; }
                    std::vector<work::Square> tasks(numbers.size());
                    std::vector<const ITask*> list;
                    for (size_t k = 0; k < numbers.size(); k++) { tasks[k].v = numbers[k]; list.push_back(&tasks[k]); }
                    for (auto& r : p.DoTasks(list)) t(dynamic_cast<const work::Number&>(*r).v);
                });
            }
        }
        if (s.chance(0.2)) h.add("all parameters", look);
    }
    h.add("all parameters", look);
    h.compare(s);
}

Property pbt::property()
{
    Property p;
    p.id = "C38";
    p.facets = {{"parameters", 3, parameters}, {"individuals", 4, individuals}, {"storage", 1, storage}, {"signals", 3, signals}, {"solvers", 3, solvers}};
    p.quick_cases = 24000;
    p.thorough_cases = 600000;
    p.rule = "A history of 2 to 16 calls, valid and not, on a few objects (discrete parameters, individuals and mutators, settings and caches, splines, transforms and wavelets, optimizers and pools) is made on one set of objects and again, from the same state of the random generator, on an equal set without the calls that were refused. Non-trivial: at least one call is refused and one that is not follows.";
    p.assumptions = {"A cache that can not be cleared up to its limit may drop values; the copies of an object that its own Clone refuses to make are not made.", "An exception from the user's own code (C36) is no refusal."};
    p.batch = 100;
    return p;
}
