// A model of an MPI world in one process, behind the names of Boost.MPI that k52 uses.
// Ranks are threads of which exactly one runs at a time; at every MPI operation and every
// sleep the next one is chosen by a generated stream, so that a case owns its schedule.
// Messages of a channel (source, target, tag) are delivered in order, to the receives in the
// order in which these were posted. A world in which everybody waits is dead-locked.
#ifndef MPI_WORLD_H
#define MPI_WORLD_H
#include <condition_variable>
#include <csetjmp>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <typeindex>
#include <typeinfo>
#include <vector>

namespace mpi_model
{
struct Stopped {};      // thrown out of every MPI operation once the world has a problem

struct Message { std::type_index type; std::shared_ptr<void> value; };
struct Channel { std::vector<Message> messages; size_t posted = 0, taken = 0; };

struct World
{
    std::mutex m;
    std::condition_variable cv;
    int size = 1, running = 0;
    std::vector<int> state;             // 0 runs, 1 waits, 2 ended
    std::vector<uint64_t> speed;
    uint64_t rng = 1;
    bool synchronous = false;           // a send returns when its receive is posted
    unsigned late = 0;                  // of 256 tests, so many find nothing although it is there
    long idle = 0, idle_limit = 50000; // operations since the last message
    long operations = 0;
    bool stopped = false;
    std::string problem;
    std::map<std::tuple<int, int, int>, Channel> channels;
    std::vector<int> environments, communicators;   // alive, per rank
    std::vector<int> exit_code;                     // -1 while running

    uint64_t next()
    {
        rng += 0x9e3779b97f4a7c15ULL;
        uint64_t z = rng;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
};
inline World* world = nullptr;
inline void (*environment_hook)() = nullptr;     // called when a rank joins
inline thread_local int my_rank = 0;
inline thread_local jmp_buf* exit_to = nullptr;

typedef std::unique_lock<std::mutex> Lock;
inline void stop(World& w, const std::string& why)
{
    if (!w.stopped) { w.stopped = true; w.problem = why; }
    w.cv.notify_all();
}
// chooses who runs next, and waits to be chosen again unless this rank has ended
inline void switch_over(World& w, Lock& l, bool wait = true)
{
    if (w.stopped) { if (wait) throw Stopped(); return; }
    uint64_t sum = 0;
    for (int i = 0; i < w.size; i++) if (w.state[i] == 0) sum += w.speed[i];
    if (!sum)
    {
        bool all = true;
        for (int s : w.state) all = all && s == 2;
        if (!all) { stop(w, "every rank waits for a message of another one"); if (wait) throw Stopped(); }
        w.cv.notify_all();
        return;
    }
    uint64_t r = w.next() % sum;
    for (int i = 0; i < w.size; i++)
    {
        if (w.state[i]) continue;
        if (r < w.speed[i]) { w.running = i; break; }
        r -= w.speed[i];
    }
    w.operations++;
    if (w.running == my_rank && w.state[my_rank] == 0) return;
    w.cv.notify_all();
    if (!wait) return;
    w.cv.wait(l, [&] { return w.stopped || (w.running == my_rank && w.state[my_rank] == 0); });
    if (w.stopped) throw Stopped();
}
inline void pause()
{
    if (!world) return;
    World& w = *world;
    Lock l(w.m);
    if (w.stopped) throw Stopped();
    if (++w.idle > w.idle_limit) { stop(w, "nobody sends or receives anything any more"); throw Stopped(); }
    switch_over(w, l);
}
// a rank that computes
inline void work()
{
    if (!world) return;
    World& w = *world;
    Lock l(w.m);
    if (w.stopped) throw Stopped();
    w.idle = 0;
    switch_over(w, l);
}
inline void wait_for(World& w, Lock& l, const std::function<bool()>& ready)
{
    while (!ready())
    {
        w.state[my_rank] = 1;
        switch_over(w, l);
        w.state[my_rank] = 0;
    }
}
inline Channel& channel(World& w, int from, int to, int tag) { return w.channels[std::make_tuple(from, to, tag)]; }

// Never throws: it is used by destructors, and whoever goes on is stopped at the next receive.
inline void send(int to, int tag, Message msg)
{
    World& w = *world;
    Lock l(w.m);
    if (w.stopped) return;
    if (to < 0 || to >= w.size || to == my_rank) { stop(w, "rank " + std::to_string(my_rank) + " sends to rank " + std::to_string(to)); return; }
    Channel& c = channel(w, my_rank, to, tag);
    size_t ticket = c.messages.size();
    c.messages.push_back(msg);
    w.idle = 0;
    if (w.state[to] == 1) w.state[to] = 0;
    try
    {
        if (w.synchronous) wait_for(w, l, [&] { return c.posted > ticket; });
        switch_over(w, l);
    }
    catch (const Stopped&) {}
}
inline size_t post(int from, int tag)
{
    World& w = *world;
    Lock l(w.m);
    if (w.stopped) throw Stopped();
    if (from < 0 || from >= w.size || from == my_rank) { stop(w, "rank " + std::to_string(my_rank) + " receives from rank " + std::to_string(from)); throw Stopped(); }
    size_t t = channel(w, from, my_rank, tag).posted++;
    if (w.state[from] == 1) w.state[from] = 0;
    return t;
}
inline Message take(World& w, int from, int tag, size_t ticket, std::type_index want)
{
    Channel& c = channel(w, from, my_rank, tag);
    Message m = c.messages[ticket];
    c.taken++;
    w.idle = 0;
    if (m.type != want)
    {
        stop(w, std::string("a ") + m.type.name() + " sent by rank " + std::to_string(from) + " is received as a " + want.name() + " by rank " + std::to_string(my_rank));
        throw Stopped();
    }
    c.messages[ticket].value.reset();
    return m;
}
inline Message receive(int from, int tag, std::type_index want)
{
    size_t ticket = post(from, tag);
    World& w = *world;
    Lock l(w.m);
    Channel& c = channel(w, from, my_rank, tag);
    wait_for(w, l, [&] { return c.messages.size() > ticket; });
    return take(w, from, tag, ticket, want);
}
inline bool try_receive(int from, int tag, size_t ticket, std::type_index want, Message& out)
{
    World& w = *world;
    Lock l(w.m);
    if (w.stopped) throw Stopped();
    if (++w.idle > w.idle_limit) { stop(w, "nobody sends or receives anything any more"); throw Stopped(); }
    switch_over(w, l);
    if (channel(w, from, my_rank, tag).messages.size() <= ticket) return false;
    if ((w.next() & 255) < w.late) return false;
    out = take(w, from, tag, ticket, want);
    return true;
}

// Runs the server in this thread and the workers in others, until all have ended.
struct Outcome { std::string problem; std::vector<std::string> errors; };
inline Outcome run(World& w, const std::function<void()>& server, const std::function<void(int)>& worker)
{
    w.state.assign(w.size, 0);
    if (w.speed.empty()) w.speed.assign(w.size, 1);
    w.environments.assign(w.size, 0);
    w.communicators.assign(w.size, 0);
    w.exit_code.assign(w.size, -1);
    w.running = 0;
    world = &w;
    my_rank = 0;
    Outcome o;
    o.errors.resize(w.size);
    auto ended = [&](int rank) { Lock l(w.m); w.state[rank] = 2; switch_over(w, l, false); };
    auto guarded = [&](int rank, const std::function<void()>& f)
    {
        try { f(); }
        catch (const Stopped&) {}
        catch (const std::exception& e) { o.errors[rank] = e.what(); }
        ended(rank);
    };
    std::vector<std::thread> threads;
    for (int i = 1; i < w.size; i++)
        threads.emplace_back([&, i]
        {
            my_rank = i;
            { Lock l(w.m); w.cv.wait(l, [&] { return w.stopped || w.running == i; }); }
            jmp_buf here;
            exit_to = &here;
            if (setjmp(here) == 0) guarded(i, [&] { worker(i); });
            else ended(my_rank);
            exit_to = nullptr;
        });
    guarded(0, server);
    {
        // who still waits for a message now waits for ever
        Lock l(w.m);
        w.cv.wait(l, [&] { bool all = true; for (int s : w.state) all = all && s == 2; return all || w.stopped; });
        w.cv.notify_all();
    }
    for (auto& t : threads) t.join();
    o.problem = w.problem;
    world = nullptr;
    return o;
}
}

#endif
