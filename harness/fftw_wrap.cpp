// fftw_plan_dft_1d with FFTW_PATIENT measures for up to seconds; the flag only
// affects how a plan is found. Plan with FFTW_ESTIMATE instead, and overwrite the
// arrays as a measuring planner does, so that code which fills them too early is
// still found out. Also watches for planner calls that overlap (the planner is
// documented not to be thread-safe).
#include <fftw3.h>
#include <atomic>
#include <unistd.h>

namespace fftw_watch
{
std::atomic<int> inside(0);
std::atomic<int> overlaps(0);
std::atomic<long> plans(0);
std::atomic<long> alive(0);
std::atomic<int> linger_us(0);

struct Enter
{
    Enter() { if (inside.fetch_add(1) != 0) overlaps++; if (linger_us) usleep((unsigned)linger_us.load()); }
    ~Enter() { inside--; }
};
}

extern "C" fftw_plan __real_fftw_plan_dft_1d(int n, fftw_complex* in, fftw_complex* out, int sign, unsigned flags);
extern "C" fftw_plan __wrap_fftw_plan_dft_1d(int n, fftw_complex* in, fftw_complex* out, int sign, unsigned flags)
{
    fftw_watch::Enter e;
    fftw_watch::plans++;
    unsigned f = flags;
    if (!(flags & FFTW_ESTIMATE) && !(flags & FFTW_WISDOM_ONLY))
    {
        f = (flags & ~(unsigned)(FFTW_PATIENT | FFTW_EXHAUSTIVE)) | FFTW_ESTIMATE;
        for (int i = 0; i < n; i++) { in[i][0] = in[i][1] = 12345.678; out[i][0] = out[i][1] = -9876.5; }
    }
    fftw_plan p = __real_fftw_plan_dft_1d(n, in, out, sign, f);
    if (p) fftw_watch::alive++;
    return p;
}

extern "C" void __real_fftw_destroy_plan(fftw_plan p);
extern "C" void __wrap_fftw_destroy_plan(fftw_plan p)
{
    fftw_watch::Enter e;
    if (p) fftw_watch::alive--;
    __real_fftw_destroy_plan(p);
}
