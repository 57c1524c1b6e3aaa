// The harness owns the random generator: rand() and srand() are defined here, in the
// executable, and so replace those of the C library for the code under test.
#ifndef RAND_CTL_H
#define RAND_CTL_H
#include "pbt.h"
#include <cstdlib>
#include <cstring>
#include <k52/common/random.h>

namespace rc
{
inline uint64_t state = 88172645463325252ULL;
inline int mode = 0;          // 0 uniform, 1 with many extreme outputs, 2 constant, 3 slowly rising
inline int constant = 0;
inline long calls = 0;
inline uint64_t next()
{
    uint64_t z = (state += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline int output()
{
    calls++;
    uint64_t v = next();
    int u = (int)(v >> 33);
    switch (mode)
    {
    case 1:
        switch ((v >> 3) & 7)
        {
        case 0: return 0;
        case 1: return RAND_MAX;
        case 2: return (int)((v >> 8) & 3);
        case 3: return RAND_MAX - (int)((v >> 8) & 3);
        default: return u;
        }
    case 2: return constant;
    case 3: return (int)((uint64_t)calls * 1234577u % ((uint64_t)RAND_MAX + 1));
    default: return u;
    }
}

// The state of the Random singleton, so that two runs can start from the same one.
struct Image
{
    unsigned char bytes[sizeof(k52::common::Random)];
    void save() { memcpy(bytes, (const void*)&k52::common::Random::Instance(), sizeof bytes); }
    void restore() const { memcpy((void*)&k52::common::Random::Instance(), bytes, sizeof bytes); }
};

// everything that determines the outputs to come
struct Point
{
    uint64_t st; int md, ct; long cl;
    Image img;
    static Point here() { Point p; p.st = state; p.md = mode; p.ct = constant; p.cl = calls; p.img.save(); return p; }
    void restore() const { state = st; mode = md; constant = ct; calls = cl; img.restore(); }
};

// Starts a case: a generated seed and kind of generator, and the singleton as at the start.
inline void begin(pbt::Src& s, bool only_uniform = false)
{
    static Image pristine;
    static bool have = false;
    if (!have) { state = 88172645463325252ULL; mode = 0; calls = 0; k52::common::Random::Instance(); pristine.save(); have = true; }
    pristine.restore();
    calls = 0;
    state = s.draw(0xffffffff) * 0x9e3779b97f4a7c15ULL + 1;
    mode = only_uniform ? 0 : s.weighted({6, 2, 1, 1});
    constant = mode == 2 ? (s.flip() ? (s.flip() ? 0 : RAND_MAX) : (int)s.draw(RAND_MAX)) : 0;
    s.note("generator", mode == 0 ? "uniform" : mode == 1 ? "extremes" : mode == 2 ? "constant " + std::to_string(constant) : "rising");
}
}

extern "C" int rand(void) noexcept { return rc::output(); }
extern "C" void srand(unsigned) noexcept {}
#endif
