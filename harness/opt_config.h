// Configurations of the continuous optimisers, of which any number of equal objects can be made.
#ifndef OPT_CONFIG_H
#define OPT_CONFIG_H
#include "opt_util.h"

namespace conf
{
using namespace pbt;
using namespace opt;

enum Kind { HJ, NM, CG, SD, RB, SA, RS, Kinds };
static const char* const kNames[] = {"Hooke-Jeeves", "Nelder-Mead", "conjugate gradient", "steepest descent", "Rosenbrock", "simulated annealing", "random search"};

// makes any number of equal objects
struct Config
{
    Kind k = HJ;
    double d[5] = {0, 0, 0, 0, 0};
    size_t n = 0;
    bool usual = false;
    ContinuousOptimizer::shared_ptr inner;      // of random search
    ContinuousOptimizer::shared_ptr make() const
    {
        typedef ContinuousOptimizer::shared_ptr P;
        switch (k)
        {
        case HJ: return P(new HookeJeevesMethod(d[0], d[1], n, d[2], d[3]));
        case NM: return P(new BoundedNelderMead(d[0], d[1], d[2], d[3]));
        case CG: return P(usual ? new ConjugateGradientMethod() : new ConjugateGradientMethod(d[0], d[1], n));
        case SD: return P(new SteepestDescentMethod(d[0], n, d[1]));
        case RB: return P(new HleborodovRosenbrockMethod(d[0], n, d[1], d[2]));
        case SA: return P(new SimulatedAnnealing(n, d[0], d[1]));
        default: return P(new RandomSearch(n, d[0], d[1], inner.get()));
        }
    }
    bool clones() const { return k <= RB; }
    std::string text() const
    {
        std::ostringstream o;
        o << kNames[k] << (usual ? " as constructed by default" : "");
        if (!usual) { for (double e : d) { o << " "; put(o, e); } o << " iterations " << n; }
        return o.str();
    }
};

inline Config gen_config(Src& s, int first = HJ, int last = RS)
{
    Config c;
    c.k = (Kind)s.range(first, last);
    switch (c.k)
    {
    case HJ:
        c.d[0] = s.flip() ? 3.5 : 1 + s.unit() * 4; c.d[1] = s.flip() ? 1 : 0.05 + 5 * s.unit();
        c.d[2] = std::pow(10, s.range(-6, -1)); c.d[3] = s.flip() ? 10 : 1.5 + 8 * s.unit(); c.n = s.size(1, 200);
        break;
    case NM:
        c.d[0] = s.flip() ? 10 : 0.1 + 20 * s.unit(); c.d[1] = std::pow(10, s.range(-9, -1));
        c.d[2] = s.flip() ? -20 : -10 * s.unit(); c.d[3] = s.flip() ? 20 : 0.5 + 10 * s.unit();
        break;
    case CG: c.usual = s.chance(0.2); c.d[0] = std::pow(10, s.range(-5, -2)); c.d[1] = std::pow(10, s.range(-5, -2)); c.n = s.size(1, 20); break;
    case SD: c.d[0] = std::pow(10, s.range(-5, -2)); c.d[1] = std::pow(10, s.range(-5, -2)); c.n = s.size(1, 20); break;
    case RB: c.d[0] = std::pow(10, s.range(-8, -2)); c.d[1] = s.flip() ? 1 : 0.1 + 2 * s.unit(); c.d[2] = s.flip() ? 3 : 0.5 + 4 * s.unit(); c.n = s.size(1, 60); break;
    default: c.d[0] = s.flip() ? -10 : -5 * s.unit(); c.d[1] = s.flip() ? 10 : 0.5 + 5 * s.unit(); c.n = s.size(1, 30);
    }
    return c;
}

// exactly, where not-a-numbers are equal
inline bool same(const Point& a, const Point& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return false;
    return true;
}
}
#endif
