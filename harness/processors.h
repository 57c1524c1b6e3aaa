// The number of workers is the number of processors: the harness decides it.
#ifndef PROCESSORS_H
#define PROCESSORS_H
#include <atomic>
#include <boost/thread.hpp>
static std::atomic<unsigned> g_processors{1};
namespace boost { unsigned thread::hardware_concurrency() BOOST_NOEXCEPT { return g_processors.load(); } }
#endif
