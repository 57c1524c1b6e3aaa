// C19: an individual's chromosome, parameters and fitness always agree.
#include "params.h"
#include "rand_ctl.h"
#include <k52/optimization/individual.h>
#include <iomanip>
#include <memory>
using namespace pbt;
using namespace par;

namespace
{
const char* const kBefore = "before";

// Flips what it was told to, call by call; when the plan is used up, the chromosome
// becomes the smallest values, which are valid.
class PlannedMutator : public IMutator
{
public:
    std::vector<std::vector<size_t>> plan;
    std::vector<ChromosomeType> seen, left;
    void ApplyNewMutationContext(const MutationContext&) {}
    void MutateChromosome(ChromosomeType* c)
    {
        seen.push_back(*c);
        if (seen.size() <= plan.size())
        {
            for (size_t i : plan[seen.size() - 1]) if (i < c->size()) (*c)[i] = !(*c)[i];
        }
        else std::fill(c->begin(), c->end(), false);
        left.push_back(*c);
        check(seen.size() < plan.size() + 4, "mutating goes on although the chromosome satisfies the constraints");
    }
};

struct Model
{
    std::shared_ptr<Individual> p;
    ChromosomeType c;
    bool known = false;      // whether the fitness was set since the last change
    double fitness = 0;
    int times = 0;
    bool initialized = true;
};

struct World
{
    Desc d;
    size_t size;

    std::vector<double> decode(const ChromosomeType& c) const
    {
        IDiscreteParameters::shared_ptr f = make(d);
        f->SetFromChromosome(c.begin(), c.end());
        return values(f.get());
    }
    bool valid(const ChromosomeType& c) const
    {
        IDiscreteParameters::shared_ptr f = make(d);
        f->SetFromChromosome(c.begin(), c.end());
        return in_range(f.get());
    }
    void verify(const Model& m, size_t i, const char* after) const
    {
        if (!m.initialized)
        {
            must_throw<std::logic_error>("chromosome of an individual that was not initialized", [&] { m.p->GetChromosome(); });
            must_throw<std::logic_error>("parameters of an individual that was not initialized", [&] { m.p->GetParametersAccordingToChromosome(); });
            return;
        }
        check(m.p->GetChromosome() == m.c, "after ", after, " the chromosome of individual ", i, " is ", bits(m.p->GetChromosome()), " instead of ", bits(m.c));
        std::vector<double> got = values(m.p->GetParametersAccordingToChromosome()), want = decode(m.c);
        check(got == want, "after ", after, " the parameters of individual ", i, " are ", got, " but its chromosome means ", want);
        check(m.p->HasFitness() == m.known, "after ", after, " the fitness of individual ", i, m.known ? " is not available" : " is available, but was not set since the last change");
        if (m.known) check(m.p->get_fitness() == m.fitness, "after ", after, " the fitness of individual ", i, " is ", m.p->get_fitness(), " instead of ", m.fitness);
        else must_throw<std::logic_error>("fitness that was not set", [&] { m.p->get_fitness(); });
        check(m.p->IsValid() == valid(m.c), "after ", after, " individual ", i, " is said to be ", m.p->IsValid() ? "valid" : "invalid");
        check(m.p->get_times_chosen_for_crossover() == m.times, "after ", after, " individual ", i, " was chosen ", m.p->get_times_chosen_for_crossover(), " times instead of ", m.times);
    }
};

double gen_fitness(Src& s)
{
    switch (s.range(0, 4))
    {
    case 0: return s.range(0, 10);
    case 1: return 0;
    case 2: return s.unit();
    case 3: return 1 / (double)s.range(3, 1000);
    default: return std::fabs(s.mag(-20, 20));
    }
}

size_t leaf_count(const Desc& d)
{
    IDiscreteParameters::shared_ptr p = make(d);
    std::vector<Leaf> l;
    leaves(p.get(), l);
    return l.size();
}
}

static void history(Src& s)
{
    World w;
    // rejected random chromosomes are drawn again: not too many values that must all fit
    do { w.d = gen(s, 1, s.flip() ? 6 : 30); } while (leaf_count(w.d) > 6);
    if (s.chance(0.01)) w.d = gen_long(s);
    IDiscreteParameters::shared_ptr example = make(w.d);
    w.size = example->GetChromosomeSize();
    s.note("parameters", text(w.d));
    rc::begin(s, true);
    rc::mode = s.chance(0.25) ? 1 : 0;
    std::vector<Model> all;
    auto other = [&](Src& s) -> size_t { return s.index(all.size()); };
    auto fresh = [&]
    {
        Model m;
        Desc d = w.d;
        if (s.flip()) // other values
        {
            ChromosomeType c(w.size);
            for (int tries = 0; tries < 4; tries++)
            {
                for (size_t i = 0; i < c.size(); i++) c[i] = s.flip();
                if (w.valid(c)) break;
                std::fill(c.begin(), c.end(), false);
            }
            IDiscreteParameters::shared_ptr p = make(w.d);
            p->SetFromChromosome(c.begin(), c.end());
            if (s.flip()) m.p.reset(new Individual(p.get()));
            else { m.p.reset(new Individual()); m.p->Initialize(p.get()); }
            m.c = chromosome(p.get());
        }
        else
        {
            m.p.reset(new Individual(example.get()));
            m.c = chromosome(example.get());
        }
        all.push_back(m);
    };
    fresh();
    w.verify(all[0], 0, "creation");
    int n = s.size(1, 30);
    int changes = 0;
    for (int q = 0; q < n; q++)
    {
        const char* what = "";
        int op = s.weighted({2, 3, 4, 3, 2, 2, 3, 3, 2, 1, 1});
        size_t i = other(s);
        switch (op)
        {
        case 0:
            what = "creation";
            if (all.size() < 6) fresh();
            break;
        case 1:
            {
                what = "random initialization";
                if (!all[i].initialized) break;
                int invalid = all[i].p->SetRandomChromosome();
                check(invalid >= 0, "a negative number of invalid chromosomes: ", invalid);
                all[i].c = all[i].p->GetChromosome();
                check(all[i].c.size() == w.size, "the chromosome has ", all[i].c.size(), " genes instead of ", w.size);
                check(w.valid(all[i].c), "random initialization gave an invalid chromosome ", bits(all[i].c), ": ", w.decode(all[i].c));
                all[i].known = false;
                changes++;
                break;
            }
        case 2:
            {
                what = "crossover";
                size_t j = other(s);
                if (!all[i].initialized || !all[j].initialized) break;
                bool ok = all[i].p->Crossover(all[j].p.get());
                ChromosomeType a = all[i].p->GetChromosome(), b = all[j].p->GetChromosome();
                check(a.size() == w.size && b.size() == w.size, "crossover changed the number of genes");
                for (size_t k = 0; k < w.size; k++)
                {
                    bool kept = a[k] == all[i].c[k] && b[k] == all[j].c[k];
                    bool exchanged = a[k] == all[j].c[k] && b[k] == all[i].c[k];
                    check(kept || exchanged, "crossover of ", bits(all[i].c), " and ", bits(all[j].c), " gave ", bits(a), " and ", bits(b), ": gene ", k, " was neither kept nor exchanged");
                }
                check(ok == (w.valid(a) && w.valid(b)), "crossover says the offspring ", bits(a), " and ", bits(b), ok ? " are" : " are not", " both valid");
                if (s.noting()) s.note() << "crossover " << i << "," << j << ": " << bits(all[i].c) << "," << bits(all[j].c) << " -> " << bits(a) << "," << bits(b) << "\n";
                if (i != j && a != all[i].c) changes++;
                all[i].c = a; all[j].c = b;
                all[i].known = all[j].known = false;
                break;
            }
        case 3:
            {
                what = "mutation";
                if (!all[i].initialized) break;
                PlannedMutator* pm = new PlannedMutator();
                IMutator::shared_ptr m(pm);
                int calls = s.range(0, 4);
                for (int k = 0; k < calls; k++)
                {
                    std::vector<size_t> v;
                    for (int e = s.size(0, 8); e > 0 && w.size; e--) v.push_back(s.index(w.size));
                    pm->plan.push_back(v);
                }
                int invalid = all[i].p->Mutate(m);
                check(!pm->seen.empty(), "the mutator was not called");
                check(pm->seen[0] == all[i].c, "the mutator was given ", bits(pm->seen[0]), " instead of ", bits(all[i].c));
                int want = 0;
                for (size_t k = 0; k < pm->left.size(); k++)
                {
                    if (k) check(pm->seen[k] == pm->left[k - 1], "the mutator's result was changed before it was called again");
                    if (!w.valid(pm->left[k])) want++;
                }
                check(invalid == want, "mutation reports ", invalid, " invalid chromosomes, but there were ", want);
                all[i].c = pm->left.back();
                check(w.valid(all[i].c), "mutation left invalid parameters: ", w.decode(all[i].c));
                all[i].known = false;
                if (s.noting()) s.note() << "mutation of " << i << " to " << bits(all[i].c) << " (" << invalid << " invalid)\n";
                changes++;
                break;
            }
        case 4:
            {
                what = "assignment";
                size_t j = other(s);
                if (!all[i].initialized && all[j].initialized) { }
                if (!all[j].initialized) break;
                *all[i].p = *all[j].p;
                auto keep = all[i].p;
                all[i] = all[j];
                all[i].p = keep;
                break;
            }
        case 5:
            {
                what = "copying";
                if (all.size() >= 6) break;
                Model m = all[i];
                m.p.reset(new Individual(*all[i].p));
                all.push_back(m);
                if (all[i].initialized)
                    check(all[i].p->GetParametersAccordingToChromosome() != m.p->GetParametersAccordingToChromosome(), "a copy shares its parameters with its source");
                break;
            }
        case 6:
            {
                what = "setting fitness";
                if (!all[i].initialized) break;
                if (s.chance(0.15))
                {
                    double bad = s.flip() ? -gen_fitness(s) - 1e-300 : s.flip() ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
                    must_throw<std::logic_error>("a fitness that is negative or no number", [&] { all[i].p->set_fitness(bad); });
                }
                else
                {
                    all[i].fitness = gen_fitness(s);
                    all[i].p->set_fitness(all[i].fitness);
                    all[i].known = true;
                }
                break;
            }
        case 7:
            {
                what = "writing and reading";
                size_t j = other(s);
                if (!all[i].initialized || !all[j].initialized || w.size == 0) break;
                std::stringstream io;
                if (!all[i].known)
                {
                    must_throw<std::logic_error>("writing an individual without fitness", [&] { io << *all[i].p; });
                    break;
                }
                int more = s.range(0, 2);
                for (int k = 0; k <= more; k++) io << *all[i].p;
                for (int k = 0; k <= more; k++)
                {
                    io >> *all[j].p;
                    all[j].c = all[i].c; all[j].fitness = all[i].fitness; all[j].known = true;
                    w.verify(all[j], j, "reading what was written");
                }
                changes++;
                break;
            }
        case 8:
            {
                what = "rejecting a text";
                if (!all[i].initialized || w.size == 0) break;
                std::string c = bits(all[i].c), f = "0.5", head = "Chromosome:\t", mid = "\tFitness:\t";
                for (auto& e : c) if (s.chance(0.3)) e = e == '0' ? '1' : '0';
                int kind = s.range(0, 6);
                switch (kind)
                {
                case 0: c += s.flip() ? "0" : "1"; break;
                case 1: if (c.size() < 2) c += "10"; else c.erase(s.index(c.size()), 1); break;
                case 2: c[s.index(c.size())] = "2x-O/: "[s.index(6)]; break;
                case 3: f = s.pick(std::vector<std::string>{"x", "", "-", "nofitness", "."}); break;
                case 4: f = s.pick(std::vector<std::string>{"-1", "-0.25", "-1e-300"}); break;
                case 5: c = "" ; break;
                default: f = ""; mid = s.flip() ? "" : "\tFitness:\t";
                }
                std::string text = head + c + mid + f + "\n";
                s.note("text", text);
                std::istringstream in(text);
                must_throw<std::logic_error>("the text", [&] { in >> *all[i].p; });
                break;
            }
        case 9:
            {
                what = "counting choices";
                if (s.chance(0.7)) { all[i].p->IncreaseTimesChosenForCrossover(); all[i].times++; }
                else { all[i].p->ResetTimesChosenForCrossover(); all[i].times = 0; }
                break;
            }
        default:
            {
                if (s.flip() && all.size() < 6)
                {
                    what = "default creation";
                    Model m;
                    m.initialized = false;
                    m.p.reset(new Individual());
                    all.push_back(m);
                    i = all.size() - 1;
                    check(!m.p->HasFitness(), "a new individual has a fitness");
                    must_throw<std::logic_error>("random chromosome without initialization", [&] { m.p->SetRandomChromosome(); });
                    must_throw<std::logic_error>("validity without initialization", [&] { m.p->IsValid(); });
                    break;
                }
                what = "initialization";
                if (all[i].initialized)
                {
                    IDiscreteParameters::shared_ptr p = make(w.d);
                    must_throw<std::logic_error>("initializing twice", [&] { all[i].p->Initialize(p.get()); });
                }
                else
                {
                    all[i].p->Initialize(example.get());
                    all[i].initialized = true;
                    all[i].c = chromosome(example.get());
                    all[i].times = 0;
                    all[i].known = false;
                }
            }
        }
        s.label(what);
        if (s.noting()) s.note() << q << ". " << what << " (" << i << ")\n";
        for (size_t k = 0; k < all.size(); k++) w.verify(all[k], k, what);
    }
    std::vector<double> v = values(example.get());
    check(v == values(make(w.d).get()), "the parameters individuals were made of have changed");
    if (changes >= 2 && all.size() >= 2) s.nontrivial();
}

// other sizes do not cross
static void mismatch(Src& s)
{
    Desc a = gen(s, 1, 10), b = gen(s, 1, 10);
    IDiscreteParameters::shared_ptr pa = make(a), pb = make(b);
    if (pa->GetChromosomeSize() == pb->GetChromosomeSize()) throw Discard();
    s.note("first", text(a));
    s.note("second", text(b));
    s.nontrivial();
    Individual x(pa.get()), y(pb.get());
    ChromosomeType cx = x.GetChromosome(), cy = y.GetChromosome();
    must_throw<std::invalid_argument>("crossover of different sizes", [&] { x.Crossover(&y); });
    check(x.GetChromosome() == cx && y.GetChromosome() == cy, "a rejected crossover changed a chromosome");
    check(values(x.GetParametersAccordingToChromosome()).size() == values(pa.get()).size(), "a rejected crossover changed the parameters");
}

Property pbt::property()
{
    return {"C19",
        {{"history", 9, history}, {"mismatch", 1, mismatch}},
        45000, 3000000,
        "Histories of up to 30 operations (creation, random initialization, crossover, mutation by a planned mutator, assignment, copying, "
        "fitness, writing/reading, texts to be rejected, repeated initialization) on up to 6 individuals of generated parameters (int, double, array, "
        "composite), against a model of chromosome, fitness and choices; all individuals are compared with it after every operation. "
        "Non-trivial: at least two operations changed a chromosome and there were at least two individuals, or sizes that must not cross.",
        {"A text with an empty chromosome is not read back: written individuals have at least one gene.",
         "Validity and meaning of a chromosome come from fresh parameters (decided by C17 and C18)."}};
}
