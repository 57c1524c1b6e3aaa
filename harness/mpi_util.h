// Generated worlds for the MPI properties.
#ifndef MPI_UTIL_H
#define MPI_UTIL_H
#include "pbt.h"
#include <mpi_world.h>
#include <unistd.h>
#include <iostream>

// exit() ends the calling rank (linked with --wrap=exit)
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" __attribute__((noreturn)) void __wrap_exit(int code)
{
    if (mpi_model::exit_to)
    {
        mpi_model::world->exit_code[mpi_model::my_rank] = code;
        longjmp(*mpi_model::exit_to, 1);
    }
    __real_exit(code);
}
extern "C" int usleep(useconds_t) { mpi_model::pause(); return 0; }

namespace mw
{
inline void gen_world(pbt::Src& s, mpi_model::World& w, int max_size = 6)
{
    w.size = s.range(2, max_size);
    w.rng = s.draw(0xffffffff);
    w.synchronous = s.flip();
    w.late = s.flip() ? 0 : s.range(0, 200);
    for (int i = 0; i < w.size; i++) w.speed.push_back(s.chance(0.3) ? s.range(1, 20) : 4);
    s.note("ranks", w.size);
    s.note("sends wait for their receives", w.synchronous);
    s.note("late of 256", w.late);
    s.note("speeds", w.speed);
}
// nothing went wrong between the ranks, and everything sent has been received
inline void verify_world(const mpi_model::World& w, const mpi_model::Outcome& o)
{
    pbt::check(o.problem.empty(), "MPI: ", o.problem);
    for (int i = 1; i < w.size; i++) pbt::check(o.errors[i].empty(), "rank ", i, " ended with an exception: ", o.errors[i]);
    for (auto& c : w.channels)
        pbt::check(c.second.taken == c.second.messages.size() && c.second.posted == c.second.messages.size(), "rank ", std::get<0>(c.first), " sent ", c.second.messages.size(),
            " messages to rank ", std::get<1>(c.first), ", which posted ", c.second.posted, " receives and got ", c.second.taken);
}
}
#endif
