// Continuous objectives with a description, a recording objective, and the optimisers.
#ifndef OPT_UTIL_H
#define OPT_UTIL_H
#include "rand_ctl.h"
#include "processors.h"
#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <iostream>
#include <sys/stat.h>
#include <boost/thread.hpp>
#include <k52/optimization/bounded_nelder_mead.h>
#include <k52/optimization/conjugate_gradient_method.h>
#include <k52/optimization/continuous_objective_function.h>
#include <k52/optimization/continuous_optimizer.h>
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/grid_search.h>
#include <k52/optimization/hleborodov_rosenbrock_method.h>
#include <k52/optimization/hooke_jeeves_method.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/optimization/random_search.h>
#include <k52/optimization/simulated_annealing.h>
#include <k52/optimization/steepest_descent_method.h>

namespace opt
{
using namespace k52::optimization;
typedef std::vector<double> Point;

inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline double hash01(const Point& p, uint64_t seed)
{
    uint64_t h = seed;
    for (double e : p) { uint64_t b; memcpy(&b, &e, 8); h = mix(h ^ b); }
    return (double)(mix(h) >> 11) / 9007199254740992.0;
}

// A function of any number of arguments, bounded from below where an unbounded search needs it.
struct Function
{
    enum Kind { Constant, Linear, Quadratic, Hash, Steps, Waves, Peaks, Rough, Rosenbrock, Absolute, Plateau } kind = Quadratic;
    uint64_t seed = 0;
    double scale = 1, offset = 0;
    std::vector<double> centre;                   // repeated as necessary
    std::vector<std::vector<double>> a;           // for quadratics with this many arguments
    int undefined = 0;                            // not a number: 1 anywhere, 2 beyond a border
    double share = 0;                             // of the points that are not numbers; the border's distance from the centre
    double coef(size_t i) const { return (double)(mix(seed + i) >> 11) / 4503599627370496.0 - 1; }
    double c(size_t i) const { return centre.empty() ? 0 : centre[i % centre.size()]; }
    double operator()(const Point& x) const
    {
        double v = 0;
        if (undefined == 1 && hash01(x, seed + 77) < share) return std::numeric_limits<double>::quiet_NaN();
        if (undefined == 2 && !x.empty() && (coef(99) < 0 ? c(0) - x[0] : x[0] - c(0)) > share) return std::numeric_limits<double>::quiet_NaN();
        switch (kind)
        {
        case Constant: break;
        case Linear: for (size_t i = 0; i < x.size(); i++) v += coef(i) * x[i]; break;
        case Quadratic:
            if (a.size() == x.size())
            {
                for (size_t i = 0; i < x.size(); i++)
                {
                    double t = 0;
                    for (size_t j = 0; j < x.size(); j++) t += a[i][j] * (x[j] - c(j));
                    v += 0.5 * t * (x[i] - c(i));
                }
            }
            else for (size_t i = 0; i < x.size(); i++) v += (1.5 + coef(i)) * (x[i] - c(i)) * (x[i] - c(i));
            break;
        case Hash: v = hash01(x, seed); break;
        case Steps: for (size_t i = 0; i < x.size(); i++) v += std::floor(std::fabs(x[i] - c(i))); break;
        case Waves: for (size_t i = 0; i < x.size(); i++) v += std::sin(x[i] * (1 + coef(i))) + 0.05 * std::fabs(x[i] - c(i)); break;
        case Peaks: v = 1; for (size_t i = 0; i < x.size(); i++) v *= std::exp(-(x[i] - c(i)) * (x[i] - c(i))); v = -v; break;
        case Rough: for (size_t i = 0; i < x.size(); i++) v += (x[i] - c(i)) * (x[i] - c(i)); v += 0.3 * hash01(x, seed); break;
        case Rosenbrock: for (size_t i = 0; i + 1 < x.size(); i++) v += 100 * (x[i + 1] - x[i] * x[i]) * (x[i + 1] - x[i] * x[i]) + (1 - x[i]) * (1 - x[i]); if (x.size() == 1) v = (1 - x[0]) * (1 - x[0]); break;
        case Absolute: for (size_t i = 0; i < x.size(); i++) v += (1.5 + coef(i)) * std::fabs(x[i] - c(i)); break;
        case Plateau: for (size_t i = 0; i < x.size(); i++) v += std::max(0.0, std::fabs(x[i] - c(i)) - 1); break;
        }
        return v * scale + offset;
    }
    const char* name() const
    {
        static const char* const n[] = {"constant", "linear", "quadratic", "hash", "steps", "waves", "peaks", "rough", "rosenbrock", "absolute", "plateau"};
        return n[kind];
    }
    std::string text() const
    {
        std::ostringstream o;
        o << name() << " seed " << seed << " scale "; pbt::put(o, scale); o << " offset "; pbt::put(o, offset); o << " centre "; pbt::put(o, centre);
        if (undefined) { o << (undefined == 1 ? " not a number anywhere, share " : " not a number beyond "); pbt::put(o, share); }
        if (!a.empty()) { o << " matrix "; for (auto& r : a) { pbt::put(o, r); } }
        return o.str();
    }
};

inline double simple_real(pbt::Src& s, double m)
{
    return s.chance(0.4) ? s.range(-(int)m, (int)m) : s.real(-m, m);
}
inline Function gen_function(pbt::Src& s, std::vector<Function::Kind> kinds)
{
    Function f;
    f.kind = s.pick(kinds);
    f.seed = s.draw(0xffff);
    if (s.chance(0.3)) f.scale = std::pow(10, s.range(-4, 4));
    if (s.chance(0.3)) f.offset = simple_real(s, 10);
    for (int n = s.range(0, 4); n > 0; n--) f.centre.push_back(simple_real(s, 10));
    return f;
}

// some of its values are not numbers
inline void gen_undefined(pbt::Src& s, Function& f)
{
    if (!s.chance(0.3)) return;
    f.undefined = s.range(1, 2);
    f.share = f.undefined == 1 ? (s.chance(0.1) ? 1 : s.unit()) : simple_real(s, 10);
}
// any number is better than a value that is not one
inline bool better(double a, double b, bool maximize = false) { return std::isnan(a) ? false : std::isnan(b) ? true : maximize ? a > b : a < b; }
inline bool same_value(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

struct ObjectiveError : public std::runtime_error { ObjectiveError() : std::runtime_error("objective") {} };
struct TooLong : public std::runtime_error { TooLong() : std::runtime_error("too many evaluations") {} };

struct Eval { Point p; double f; };
struct Log
{
    std::mutex m;
    std::vector<Eval> evals;
    long fail_at = -1;           // throw in that evaluation
    long most = 2000000;         // and after so many
    bool store = true;
    long count = 0;
};
typedef std::shared_ptr<Log> LogPtr;

class Objective : public ContinuousObjectiveFunction
{
public:
    Objective(const Function& f, LogPtr log, bool negate = false) : f_(f), log_(log), negate_(negate) {}
    using ContinuousObjectiveFunction::operator();
    virtual double operator()(const std::vector<double>& x) const
    {
        double v = f_(x);
        if (negate_) v = -v;
        std::lock_guard<std::mutex> lock(log_->m);
        if (log_->store) log_->evals.push_back({x, v});
        long n = log_->count++;
        if (n == log_->fail_at) throw ObjectiveError();
        if (n >= log_->most) throw TooLong();
        return v;
    }
    virtual Objective* Clone() const { return new Objective(f_, log_, negate_); }
private:
    Function f_;
    LogPtr log_;
    bool negate_;
};

// Nelder-Mead appends to a file polygon.plot in the current (scratch) directory; a directory
// of that name makes it cheap.
inline void no_plot()
{
    static bool done = false;
    if (!done) { done = true; mkdir("polygon.plot", 0755); }
    std::cout.setstate(std::ios::badbit);
}
}
#endif
