// C20: mutators flip genes as often and only as configured.
#include "rand_ctl.h"
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/gen_mutator_base.h>
#include <k52/optimization/linear_mutator.h>
#include <memory>
using namespace pbt;
using namespace k52::optimization;

namespace
{
// n independent events of probability p: is k a possible count? (Bernstein, 1e-14 in all)
bool plausible(double n, double p, double k)
{
    const double L = 33;
    double v = n * p * (1 - p);
    return std::fabs(k - n * p) <= L / 3 + std::sqrt(L * L / 9 + 2 * L * v) + 1e-6 * n;
}

std::vector<size_t> gen_sizes(Src& s, size_t total)
{
    // lengths repeat, so that a few choices make many chromosomes
    std::vector<size_t> base, r;
    for (int i = s.range(1, 5); i > 0; i--) base.push_back(s.size(1, 200));
    if (s.chance(0.2)) base.push_back(0);
    size_t sum = 0;
    for (size_t i = 0; sum < total; i++) { r.push_back(base[i % base.size()]); sum += r.back(); }
    return r;
}

// what the mutator does to the chromosomes, gene by gene
std::vector<bool> mutate(Src& s, IMutator& m, const std::vector<size_t>& sizes)
{
    std::vector<bool> flips;
    uint64_t pattern = s.draw(0xffffffff);
    for (size_t n : sizes)
    {
        ChromosomeType c(n), was;
        for (size_t i = 0; i < n; i++) { pattern = pattern * 6364136223846793005ULL + 1442695040888963407ULL; c[i] = (pattern >> 40) & 1; }
        was = c;
        m.MutateChromosome(&c);
        check(c.size() == n, "mutation changed the number of genes from ", n, " to ", c.size());
        for (size_t i = 0; i < n; i++) flips.push_back(c[i] != was[i]);
    }
    return flips;
}

double gen_probability(Src& s)
{
    switch (s.range(0, 5))
    {
    case 0: return 0;
    case 1: return 1;
    case 2: return s.range(0, 10) / 10.0;
    case 3: return s.unit() * 0.05;
    case 4: return 1 - s.unit() * 0.05;
    default: return s.unit();
    }
}
}

static void linear(Src& s)
{
    double a = gen_probability(s), b = gen_probability(s);
    s.note("start", a); s.note("end", b);
    rc::begin(s, true);
    LinearMutator m(a, b);
    int stages = s.range(1, 3);
    for (int q = 0; q < stages; q++)
    {
        MutationContext ctx;
        ctx.max_number_of_generations = s.chance(0.1) ? 1 : s.chance(0.5) ? s.range(2, 6) : s.size(2, 2000);
        ctx.current_generation = s.chance(0.2) ? 0 : s.chance(0.2) ? ctx.max_number_of_generations - 1 : s.range(0, ctx.max_number_of_generations - 1);
        s.note("generation", ctx.current_generation); s.note("of", ctx.max_number_of_generations);
        m.ApplyNewMutationContext(ctx);
        double p = ctx.max_number_of_generations == 1 ? a : a + (b - a) * ((double)ctx.current_generation / (ctx.max_number_of_generations - 1));
        std::vector<size_t> sizes = gen_sizes(s, s.flip() ? 300 : 6000);
        std::vector<bool> f = mutate(s, m, sizes);
        double n = f.size(), k = 0, both = 0, first = 0, last = 0, chromosomes = 0;
        for (bool e : f) k += e;
        s.note("genes", n); s.note("flipped", k); s.note("probability", p);
        if (p > 0 && p < 1) s.nontrivial();
        if (a == b && (a == 0 || a == 1)) s.label("certain");
        else if (ctx.current_generation == 0) s.label("first generation");
        else if (ctx.current_generation == ctx.max_number_of_generations - 1) s.label("last generation");
        else s.label("between");
        if (p == 0) check(k == 0, k, " genes were mutated with probability 0");
        if (p == 1) check(k == n, n - k, " genes were not mutated with probability 1");
        check(plausible(n, p, k), k, " of ", n, " genes were mutated with probability ", p);
        for (size_t i = 0; i + 1 < f.size(); i += 2) both += f[i] && f[i + 1];
        check(plausible((double)(f.size() / 2), p * p, both), both, " of ", f.size() / 2, " pairs of neighbours were mutated with probability ", p, " of one gene");
        size_t at = 0;
        for (size_t z : sizes) if (z) { first += f[at]; last += f[at + z - 1]; chromosomes++; at += z; }
        check(plausible(chromosomes, p, first), first, " of ", chromosomes, " first genes were mutated with probability ", p);
        check(plausible(chromosomes, p, last), last, " of ", chromosomes, " last genes were mutated with probability ", p);
    }
}

static void flip_bit(Src& s)
{
    int count = s.range(1, 3);
    struct One { std::unique_ptr<FlipBitMutator> m; double p; std::vector<bool> f; };
    std::vector<One> all(count);
    rc::begin(s, true);
    for (One& o : all)
    {
        switch (s.range(0, 4))
        {
        case 0: o.p = 0.5; break;
        case 1: o.p = 1.0 / s.range(2, 60); break;
        case 2: o.p = s.real(0.05, 0.5); break;
        case 3: o.p = s.real(0.001, 0.05); break;
        default: o.p = std::pow(10, -s.real(2, 8.9)); break;
        }
        if (!(o.p > 0 && o.p <= 0.5)) o.p = 0.5;
        s.note("probability", o.p);
        o.m.reset(new FlipBitMutator(o.p));
    }
    int rounds = s.range(1, 3);
    for (int q = 0; q < rounds; q++)
        for (One& o : all)
        {
            MutationContext ctx;
            ctx.current_generation = q; ctx.max_number_of_generations = rounds;
            o.m->ApplyNewMutationContext(ctx);
            std::vector<bool> f = mutate(s, *o.m, gen_sizes(s, s.flip() ? 300 : 5000));
            o.f.insert(o.f.end(), f.begin(), f.end());
        }
    for (One& o : all)
    {
        double lo = std::floor(1 / o.p * (1 - 1e-12)), hi = std::floor(1 / o.p * (1 + 1e-12));
        std::vector<double> gaps;
        double gap = 0;
        for (size_t i = 0; i < o.f.size(); i++)
        {
            if (!o.f[i]) { gap++; check(gap <= hi - 1, gap, " genes in a row were left alone with probability ", o.p); continue; }
            gaps.push_back(gap);
            gap = 0;
        }
        s.note("gaps", gaps);
        if (gaps.size() >= 50) { s.nontrivial(); s.label("many gaps"); } else s.label("few gaps");
        if (lo != hi) continue;
        // the gaps seen are those that ended in time: only few are cut off at the end, so a
        // stretch of them, chosen by their number, is an unbiased sample
        double n = std::floor(o.f.size() / hi);    // that many gaps always end in time
        if (n > gaps.size()) n = gaps.size();
        int buckets = (int)std::min(hi, 8.0);
        std::vector<double> count(buckets), size(buckets);
        for (double g = 0; g < hi && hi <= 5000; g++) size[(int)(g * buckets / hi)]++;
        if (hi > 5000) continue;
        for (size_t i = 0; i < n; i++) count[(int)(gaps[i] * buckets / hi)]++;
        for (int b = 0; b < buckets; b++)
            check(plausible(n, size[b] / hi, count[b]), count[b], " of ", n, " gaps are in part ", b, " of ", buckets, " of 0..", hi - 1, " (probability ", o.p, ")");
        double low = 0, two = 0;
        for (double g = 0; g < hi; g++) low += g * 2 < hi;
        low /= hi;
        for (size_t i = 0; i + 1 < n; i += 2) two += gaps[i] * 2 < hi && gaps[i + 1] * 2 < hi;
        check(plausible(std::floor(n / 2), low * low, two), two, " of ", n / 2, " pairs of gaps are both small (probability ", o.p, ")");
    }
}

namespace
{
class PlannedMutator : public GenMutatorBase
{
public:
    std::vector<bool> plan, processed;
    size_t asked = 0;
    MutationContext ctx() const { return get_mutation_context(); }
protected:
    bool ShouldMutateCurrentGen()
    {
        check(asked == processed.size(), "asked about gene ", asked, " when only ", processed.size(), " were processed");
        check(asked < plan.size(), "asked about more genes than there are");
        return plan[asked++];
    }
    void AfterGenProcessed(bool was)
    {
        check(processed.size() + 1 == asked, "processed a gene nobody was asked about");
        processed.push_back(was);
    }
};
}

static void base(Src& s)
{
    PlannedMutator m;
    int n = s.size(0, 12);
    for (int q = 0; q < n; q++)
    {
        MutationContext ctx;
        ctx.current_generation = s.range(0, 1000); ctx.max_number_of_generations = s.range(0, 1000);
        m.ApplyNewMutationContext(ctx);
        size_t at = m.plan.size();
        ChromosomeType c(s.size(0, 70)), was;
        for (size_t i = 0; i < c.size(); i++) { c[i] = s.flip(); m.plan.push_back(s.flip()); if (m.plan.back()) s.nontrivial(); }
        was = c;
        m.MutateChromosome(&c);
        check(m.ctx().current_generation == ctx.current_generation && m.ctx().max_number_of_generations == ctx.max_number_of_generations, "another generation than the one applied");
        check(c.size() == was.size(), "the number of genes changed");
        for (size_t i = 0; i < c.size(); i++)
            check((c[i] != was[i]) == m.plan[at + i], "gene ", i, m.plan[at + i] ? " was chosen but not inverted" : " was inverted but not chosen");
        check(m.processed == m.plan, "not every gene was reported as it was processed");
    }
}

static void invalid(Src& s)
{
    s.nontrivial();
    double bad;
    switch (s.range(0, 4))
    {
    case 0: bad = -s.unit() - 1e-300; break;
    case 1: bad = std::nextafter(1.0, 2.0) + (s.flip() ? s.unit() : 0); break;
    case 2: bad = NAN; break;
    case 3: bad = s.flip() ? INFINITY : -INFINITY; break;
    default: bad = (s.flip() ? 1 : -1) * (1.001 + s.unit() * 100);
    }
    double good = gen_probability(s);
    s.note("bad", bad);
    must_throw<std::invalid_argument>("a linear mutator", [&] { LinearMutator m(bad, good); });
    must_throw<std::invalid_argument>("a linear mutator", [&] { LinearMutator m(good, bad); });
    must_throw<std::invalid_argument>("a flip bit mutator", [&] { FlipBitMutator m(bad); });
    double p = 0;
    switch (s.range(0, 3))
    {
    case 0: p = std::nextafter(0.5, 1); break;
    case 1: p = 0.5 + 0.5 * s.real(1e-9, 1); break;
    case 2: p = std::pow(10, -s.real(9.5, 300)); break;
    default: p = 0;
    }
    s.note("no gap", p);
    must_throw<std::invalid_argument>("a flip bit mutator whose gaps cannot vary or be counted", [&] { FlipBitMutator m(p); });
}

Property pbt::property()
{
    return {"C20",
        {{"linear", 5, linear}, {"flip_bit", 5, flip_bit}, {"base", 1, base}, {"invalid", 1, invalid}},
        20000, 1000000,
        "Mutators of generated probabilities on up to 18000 genes in chromosomes of generated lengths, with a random generator owned by the harness: "
        "the number of mutated genes, of mutated pairs and of mutated first and last genes (linear), the sizes of gaps (flip bit) must be possible by "
        "Bernstein's inequality (error 1e-14), gaps within bounds exactly; a mutator with planned choices must invert exactly those. "
        "Non-trivial: a probability other than 0 and 1, at least 50 gaps, a chosen gene, or an argument to be rejected.",
        {"rand() is uniform and independent: the harness supplies it."}};
}
