// A small property-based testing engine.
//
// A test case is a *choice sequence*: every random decision a generator makes
// goes through Src::draw and is recorded. Replaying a (possibly edited)
// sequence regenerates the case, so one generic shrinker (delete / zero / lower
// choices) works for every generator, and the replay file is the sequence.
// Cases run in forked children, so that a crash, a sanitizer report, a call of
// exit() or a hang is an observed outcome and not the end of the run.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H

#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{

struct Discard {};                    // the case is outside the domain
struct Failure { std::string msg; };  // the property does not hold

struct Recorder
{
    virtual ~Recorder() {}
    virtual void push(uint64_t v) = 0;
};

class Src
{
public:
    // uniform in [0, max]; the smaller the simpler
    uint64_t draw(uint64_t max);

    bool chance(double p);                   // false is the simpler
    bool flip() { return draw(1) == 1; }
    int range(int lo, int hi);               // lo is the simplest
    long long range64(long long lo, long long hi);
    size_t index(size_t n) { return (size_t)draw(n - 1); }
    // sizes: mostly small, sometimes up to hi, boundaries likely
    int size(int lo, int hi);
    double unit();                           // [0,1)
    double real(double lo, double hi);       // mixes simple values, bounds and uniform
    double gauss();
    // numbers of all magnitudes in +-10^[emin,emax] with simple values mixed in
    double mag(int emin, int emax);
    template<class T> const T& pick(const std::vector<T>& v) { return v[index(v.size())]; }
    int weighted(const std::vector<int>& w);

    // bookkeeping
    void label(const std::string& l);
    void nontrivial() { nontrivial_ = true; }
    bool noting() const { return noting_; }
    std::ostringstream& note() { return notes_; }
    template<class T> void note(const char* name, const T& v);

    void keep_notes();        // where they outlive a crash
    // engine side
    void start_random(uint64_t seed, Recorder* rec);
    void start_replay(const std::vector<uint64_t>& c, Recorder* rec, bool noting);
    // the given choices first, random ones after them
    void start_guided(const std::vector<uint64_t>& c, uint64_t seed, Recorder* rec);
    bool guided() const { return guided_; }
    bool is_nontrivial() const { return nontrivial_; }
    const std::vector<std::string>& labels() const { return labels_; }
    const std::vector<uint64_t>& choices() const { return made_; }
    const std::vector<uint64_t>& limits() const { return max_; }
    std::string notes() const { return notes_.str(); }

    uint64_t next64();
    // numbers the code under test mentions, drawn now and then
    static void set_numbers(const std::vector<double>& v);
private:
    uint64_t draw_as(uint64_t max, uint64_t v); // a draw whose random outcome is v
    bool number(double lo, double hi, double& v);
    bool number64(long long lo, long long hi, uint64_t& v);
    bool replay_ = false, guided_ = false, noting_ = false, nontrivial_ = false;
    std::vector<uint64_t> in_, made_, max_;
    size_t pos_ = 0;
    uint64_t state_ = 0;
    Recorder* rec_ = nullptr;
    std::vector<std::string> labels_;
    std::ostringstream notes_;
};

// printing helpers -----------------------------------------------------------
template<class T> inline void put(std::ostream& o, const T& v) { o << v; }
inline void put(std::ostream& o, double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); o << b; }
inline void put(std::ostream& o, bool v) { o << (v ? "true" : "false"); }
inline void put(std::ostream& o, const std::complex<double>& v)
{ o << "("; put(o, v.real()); o << ","; put(o, v.imag()); o << ")"; }
inline void put(std::ostream& o, const std::string& s)
{
    o << '"';
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') o << '\\' << c;
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o << b; }
        else o << c;
    }
    o << '"';
}
template<class A, class B> inline void put(std::ostream& o, const std::pair<A, B>& v)
{ put(o, v.first); o << ": "; put(o, v.second); }
template<class T> inline void put(std::ostream& o, const std::vector<T>& v)
{
    o << "[";
    for (size_t i = 0; i < v.size(); i++)
    {
        if (i) o << ", ";
        if (i >= 64) { o << "... " << v.size() << " in all"; break; }
        T e = v[i];
        put(o, e);
    }
    o << "]";
}
template<class T> inline std::string show(const T& v) { std::ostringstream o; put(o, v); return o.str(); }

template<class T> void Src::note(const char* name, const T& v)
{
    if (!noting_) return;
    notes_ << name << "=";
    put(notes_, v);
    notes_ << "\n";
    keep_notes();
}

inline void cat(std::ostream&) {}
template<class A, class... R> inline void cat(std::ostream& o, const A& a, const R&... r) { put(o, a); cat(o, r...); }
inline void cat1(std::ostream& o, const char* s) { o << s; }
struct Lit { const char* s; };
inline void put(std::ostream& o, const Lit& l) { o << l.s; }
inline void put(std::ostream& o, const char* s) { o << s; }

template<class... A> [[noreturn]] inline void fail(const A&... a)
{
    std::ostringstream o;
    cat(o, a...);
    throw Failure{o.str()};
}
template<class... A> inline void check(bool ok, const A&... a)
{
    if (!ok) fail(a...);
}

// The call must throw E (or something derived from it).
template<class E, class F> inline void must_throw(const char* what, F f)
{
    bool returned = false;
    try { f(); returned = true; }
    catch (const Failure&) { throw; }
    catch (const Discard&) { throw; }
    catch (const E&) { return; }
    catch (const std::exception& e) { fail(what, ": threw a different exception: ", std::string(e.what())); }
    if (returned) fail(what, ": accepted, but must be rejected");
}

// registration ---------------------------------------------------------------
struct Facet
{
    const char* name;
    int weight;
    void (*fn)(Src&);
};

struct Property
{
    const char* id;
    std::vector<Facet> facets;
    long quick_cases;       // number of generated cases per tier
    long thorough_cases;
    const char* rule;       // how cases are made and what makes one non-trivial
    std::vector<std::string> assumptions;
    int batch = 200;        // cases per forked child
    bool guided = true;         // also with cases bred for coverage
    bool nondeterministic = false;  // thread schedules are not owned by the harness
    double cpu_limit = 20;  // seconds of CPU after which a case counts as never returning
    double block_limit = 30;// seconds without return and without using CPU: blocked for ever
    void (*before_case)() = nullptr;
};

Property property();   // defined by the harness

} // namespace pbt

#endif
