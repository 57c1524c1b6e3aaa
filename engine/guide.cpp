#include "guide.h"

#include <cmath>
#include <cstring>

extern "C" char __executable_start;

namespace guide
{

static __thread bool t_on = false;
static uint32_t g_count[kBlocks];
static uint32_t g_touched[kBlocks], g_ntouched;
static uint64_t g_bits[kCompares / 64];
static std::vector<uint32_t>* g_set;
static uint64_t g_cost;

static inline uint64_t mix(uint64_t z)
{
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

// the same in every run, wherever the program is loaded
static inline uint64_t place(void* pc) { return (uint64_t)((char*)pc - &__executable_start); }

static inline void block(uint64_t at)
{
    uint32_t i = (uint32_t)(mix(at) & (kBlocks - 1));
    if (g_count[i]++ == 0) g_touched[g_ntouched++] = i;
    g_cost++;
}

static void bit(uint64_t h)
{
    uint32_t i = (uint32_t)(h & (kCompares - 1));
    uint64_t m = 1ull << (i & 63);
    if (g_bits[i >> 6] & m) return;
    g_bits[i >> 6] |= m;
    g_set->push_back(i);
}

static inline void distance(uint64_t at, uint64_t a, uint64_t b, bool sign)
{
    uint64_t d = sign ? a - b : b - a;
    int k = d == 0 ? 0 : 64 - __builtin_clzll(d);
    bit(mix(at * 512 + (uint64_t)k * 2 + (sign ? 1 : 0)));
}

static inline void compare(uint64_t at, uint64_t a, uint64_t b, int bits)
{
    // signed, as most comparisons of the code are
    int64_t x = bits == 64 ? (int64_t)a : bits == 32 ? (int64_t)(int32_t)a : bits == 16 ? (int64_t)(int16_t)a : (int64_t)(int8_t)a;
    int64_t y = bits == 64 ? (int64_t)b : bits == 32 ? (int64_t)(int32_t)b : bits == 16 ? (int64_t)(int16_t)b : (int64_t)(int8_t)b;
    distance(at, (uint64_t)x, (uint64_t)y, x > y);
}

static inline void compare_real(uint64_t at, double a, double b)
{
    int k;
    if (a == b) k = 200;
    else
    {
        double d = a - b;
        if (d != d) k = 201;
        else if (std::isinf(d)) k = 202;
        else { k = std::ilogb(d); k = k < -64 ? -64 : k > 64 ? 64 : k; k = (k + 64) / 2; }
        if (d > 0) k += 256;
    }
    bit(mix(at * 512 + (uint64_t)k));
}

void begin()
{
    if (!g_set) g_set = new std::vector<uint32_t>();
    for (uint32_t i = 0; i < g_ntouched; i++) g_count[g_touched[i]] = 0;
    g_ntouched = 0;
    for (uint32_t i : *g_set) g_bits[i >> 6] = 0;
    g_set->clear();
    g_cost = 0;
    t_on = true;
}

void end() { t_on = false; }

void mark(uint64_t h) { bit(mix(h)); }

uint64_t cost() { return g_cost; }

std::vector<uint32_t> features()
{
    std::vector<uint32_t> r;
    for (uint32_t k = 0; k < g_ntouched; k++)
    {
        uint32_t i = g_touched[k], n = g_count[i];
        uint32_t b = n <= 3 ? n - 1 : n < 8 ? 3 : n < 16 ? 4 : n < 32 ? 5 : n < 128 ? 6 : 7;
        r.push_back(i * 8 + b);
    }
    for (uint32_t i : *g_set) r.push_back(kBlocks * 8 + i);
    return r;
}

} // namespace guide

using namespace guide;

#define AT place(__builtin_return_address(0))

extern "C"
{
void __sanitizer_cov_trace_pc() { if (t_on) block(AT); }
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { if (t_on) compare(AT, a, b, 8); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { if (t_on) compare(AT, a, b, 16); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { if (t_on) compare(AT, a, b, 32); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { if (t_on) compare(AT, a, b, 64); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { if (t_on) compare(AT, a, b, 8); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { if (t_on) compare(AT, a, b, 16); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { if (t_on) compare(AT, a, b, 32); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { if (t_on) compare(AT, a, b, 64); }
void __sanitizer_cov_trace_cmpf(float a, float b) { if (t_on) compare_real(AT, a, b); }
void __sanitizer_cov_trace_cmpd(double a, double b) { if (t_on) compare_real(AT, a, b); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t* cases)
{
    if (!t_on) return;
    uint64_t at = AT;
    for (uint64_t i = 0; i < cases[0] && i < 64; i++)
        if (v == cases[2 + i]) { bit(mix(at * 512 + 300 + i)); return; }
    bit(mix(at * 512 + 511));
}
}
