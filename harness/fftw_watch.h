#ifndef FFTW_WATCH_H
#define FFTW_WATCH_H
#include <atomic>
namespace fftw_watch
{
extern std::atomic<int> inside, overlaps, linger_us;
extern std::atomic<long> plans, alive;
}
#endif
