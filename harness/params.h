// Generated discrete parameters with a description the harness understands.
#ifndef PARAMS_H
#define PARAMS_H
#include "pbt.h"
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/composite_discrete_parameters.h>

namespace par
{
using namespace k52::optimization;

struct Desc
{
    enum Kind { Int, Double, Array, Composite } kind = Int;
    int imin = 0, imax = 0, ival = 0;
    double dmin = 0, dmax = 1, dprec = 1, dval = 0;
    std::vector<double> vals;
    std::vector<Desc> kids;
    bool sample = false;          // composite made of equal parts
    bool again = false;           // the same object as the one before it in the composite
};

inline void print(std::ostream& o, const Desc& d)
{
    switch (d.kind)
    {
    case Desc::Int: o << "int " << d.ival << " in [" << d.imin << "," << d.imax << "]"; break;
    case Desc::Double: o << "double "; pbt::put(o, d.dval); o << " in ["; pbt::put(o, d.dmin); o << ","; pbt::put(o, d.dmax); o << "] by "; pbt::put(o, d.dprec); break;
    case Desc::Array: o << "array "; pbt::put(o, d.vals); o << " in ["; pbt::put(o, d.dmin); o << ","; pbt::put(o, d.dmax); o << "] by "; pbt::put(o, d.dprec); break;
    default:
        o << (d.sample ? "composite of equals {" : "composite {");
        for (size_t i = 0; i < d.kids.size(); i++) { if (i) o << "; "; if (d.kids[i].again) o << "again "; print(o, d.kids[i]); }
        o << "}";
    }
}
inline std::string text(const Desc& d) { std::ostringstream o; print(o, d); return o.str(); }

inline IDiscreteParameters::shared_ptr make(const Desc& d)
{
    switch (d.kind)
    {
    case Desc::Int: return IDiscreteParameters::shared_ptr(new IntParameter(d.ival, d.imin, d.imax));
    case Desc::Double: return IDiscreteParameters::shared_ptr(new DoubleParameter(d.dval, d.dmin, d.dmax, d.dprec));
    case Desc::Array:
        {
            DoubleParametersArray* a = new DoubleParametersArray(d.dmin, d.dmax, d.dprec, d.vals.size());
            IDiscreteParameters::shared_ptr r(a);
            a->SetValues(d.vals);
            return r;
        }
    default:
        {
            CompositeDiscreteParameters* c = new CompositeDiscreteParameters();
            IDiscreteParameters::shared_ptr r(c);
            if (d.sample && !d.kids.empty()) c->Initialize(make(d.kids[0]), d.kids.size());
            else
            {
                std::vector<IDiscreteParameters::shared_ptr> v;
                for (auto& k : d.kids) v.push_back(k.again && !v.empty() ? v.back() : make(k));
                c->Initialize(v);
            }
            return r;
        }
    }
}

// all values, in order
inline void values(const IDiscreteParameters* p, std::vector<double>& out)
{
    if (const IntParameter* i = dynamic_cast<const IntParameter*>(p)) out.push_back(i->get_value());
    else if (const DoubleParameter* d = dynamic_cast<const DoubleParameter*>(p)) out.push_back(d->GetValue());
    else if (const DoubleParametersArray* a = dynamic_cast<const DoubleParametersArray*>(p))
    {
        std::vector<double> v = a->get_values();
        out.insert(out.end(), v.begin(), v.end());
    }
    else if (const CompositeDiscreteParameters* c = dynamic_cast<const CompositeDiscreteParameters*>(p))
        for (size_t k = 0; k < c->GetNumberOfParameters(); k++) values(c->GetParameter(k).get(), out);
}
inline std::vector<double> values(const IDiscreteParameters* p) { std::vector<double> v; values(p, v); return v; }

// all values with their ranges
struct Leaf { double v, lo, hi; };
inline void leaves(const IDiscreteParameters* p, std::vector<Leaf>& out)
{
    if (const IntParameter* i = dynamic_cast<const IntParameter*>(p)) out.push_back({(double)i->get_value(), (double)i->get_min_value(), (double)i->get_max_value()});
    else if (const DoubleParameter* d = dynamic_cast<const DoubleParameter*>(p)) out.push_back({d->GetValue(), d->get_min_value(), d->get_max_value()});
    else if (const DoubleParametersArray* a = dynamic_cast<const DoubleParametersArray*>(p))
        for (double v : a->get_values()) out.push_back({v, a->get_min_value(), a->get_max_value()});
    else if (const CompositeDiscreteParameters* c = dynamic_cast<const CompositeDiscreteParameters*>(p))
        for (size_t k = 0; k < c->GetNumberOfParameters(); k++) leaves(c->GetParameter(k).get(), out);
}
inline bool in_range(const IDiscreteParameters* p)
{
    std::vector<Leaf> l;
    leaves(p, l);
    for (auto& e : l) if (!(e.v >= e.lo && e.v <= e.hi)) return false;
    return true;
}

inline ChromosomeType chromosome(const IDiscreteParameters* p)
{
    ChromosomeType c(p->GetChromosomeSize());
    p->SetChromosome(c.begin(), c.end());
    return c;
}
inline std::string bits(const ChromosomeType& c)
{
    std::string r;
    for (size_t i = 0; i < c.size(); i++) r += c[i] ? '1' : '0';
    return r;
}

// the number of values of an integer range: around powers of two and otherwise
inline long long gen_span(pbt::Src& s, int max_bits)
{
    int k = s.range(0, max_bits);
    long long p = 1LL << k;
    long long v;
    switch (s.range(0, 4))
    {
    case 0: v = p; break;
    case 1: v = p - 1; break;
    case 2: v = p - 2; break;
    case 3: v = p + 1; break;
    default: v = s.range64(0, p);
    }
    return std::max(0LL, std::min(v, (1LL << max_bits) - 1));
}

inline double gen_in(pbt::Src& s, double lo, double hi)
{
    switch (s.range(0, 5))
    {
    case 0: return lo;
    case 1: return hi;
    case 2: return std::nextafter(lo, hi);
    case 3: return std::nextafter(hi, lo);
    default: { double v = lo + s.unit() * (hi - lo); return v < lo ? lo : v > hi ? hi : v; }
    }
}

inline void gen_bounds(pbt::Src& s, Desc& d, int max_bits)
{
    switch (s.range(0, 3))
    {
    case 0: d.dmin = s.range(-10, 10); d.dmax = d.dmin + s.range(1, 20); break;
    case 1: d.dmin = s.real(-10, 10); d.dmax = d.dmin + s.real(0.01, 20); break;
    case 2: d.dmin = -s.unit(); d.dmax = s.unit() + 0.01; break;
    default: { double m = std::pow(10.0, s.range(-6, 6)); d.dmin = s.real(-1, 1) * m; d.dmax = d.dmin + (0.01 + s.unit()) * m; }
    }
    double w = d.dmax - d.dmin;
    // (the quotient that is rounded up to the number of steps is to be an int)
    int n = (int)std::min(2147483000LL, std::max(1LL, gen_span(s, max_bits == 30 && s.chance(0.2) ? 31 : max_bits)));
    switch (s.range(0, 2))
    {
    case 0: d.dprec = w / n; break;
    case 1: d.dprec = w / (n - 0.5 * s.unit()); break;
    default: d.dprec = w * (s.flip() ? 1.0 : 1 + 3 * s.unit()); break;
    }
}

// sizes kept small enough that random chromosomes are valid often enough
inline Desc gen(pbt::Src& s, int depth, int max_bits = 30)
{
    Desc d;
    int k = depth > 0 ? s.range(0, 3) : s.range(0, 2);
    switch (k)
    {
    case 0:
        {
            d.kind = Desc::Int;
            long long span = gen_span(s, max_bits == 30 && s.chance(0.2) ? 32 : max_bits);
            // what else the bits can express may be beyond the largest int
            long long lo = -2147483648LL, hi = 2147483647LL - span;
            d.imin = s.chance(0.5) ? (int)std::min<long long>(s.range(-100, 100), hi) : s.chance(0.5) ? 0 > hi ? (int)hi : 0 : (int)(s.flip() ? s.range64(lo, hi) : s.flip() ? lo : hi);
            d.imax = (int)(d.imin + span);
            d.ival = s.chance(0.2) ? d.imax : s.chance(0.2) ? d.imin : (int)s.range64(d.imin, d.imax);
            break;
        }
    case 1:
        d.kind = Desc::Double;
        gen_bounds(s, d, max_bits);
        d.dval = gen_in(s, d.dmin, d.dmax);
        break;
    case 2:
        {
            d.kind = Desc::Array;
            gen_bounds(s, d, max_bits);
            int n = s.chance(0.02) ? s.range(7, 40) : s.size(0, 6);
            for (int i = 0; i < n; i++) d.vals.push_back(gen_in(s, d.dmin, d.dmax));
            break;
        }
    default:
        {
            d.kind = Desc::Composite;
            int n = s.chance(0.03) ? s.range(5, 30) : s.size(0, 4);
            if (n > 4) depth = 1;
            d.sample = s.flip();
            for (int i = 0; i < n; i++)
            {
                if (i && !d.sample && s.chance(0.1)) { d.kids.push_back(d.kids.back()); d.kids.back().again = true; }
                else d.kids.push_back(d.sample && i ? d.kids[0] : gen(s, depth - 1, max_bits));
            }
        }
    }
    return d;
}

// at least about one in fifty chromosomes is valid: an algorithm that draws them until one is will find it
inline bool often_valid(const Desc& d)
{
    IDiscreteParameters::shared_ptr p = make(d);
    ChromosomeType c(p->GetChromosomeSize());
    uint64_t st = 12345;
    int n = 0;
    for (int i = 0; i < 300; i++)
    {
        for (size_t k = 0; k < c.size(); k++) { st = st * 6364136223846793005ull + 1442695040888963407ull; c[k] = st >> 63; }
        p->SetFromChromosome(c.begin(), c.end());
        n += in_range(p.get()) && p->CheckConstraints();
    }
    return n >= 6;
}

// an array of many numbers: a chromosome of some thousand genes
inline Desc gen_long(pbt::Src& s)
{
    Desc d;
    d.kind = Desc::Array;
    gen_bounds(s, d, 16);
    for (int i = s.range(20, 200); i > 0; i--) d.vals.push_back(s.chance(0.1) ? gen_in(s, d.dmin, d.dmax) : d.dmin);
    return d;
}
}
#endif
