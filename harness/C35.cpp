// C35: objects of different threads do not interfere.
#include "work.h"
#include <thread>
using namespace pbt;
using namespace work;

namespace
{
typedef Job (*Maker)(Src&);
const std::vector<Maker> kOptimization = {optimise, optimise, parameters, grid, pool}, kDsp = {spline, function, continuous, fast_wavelet, fourier, fourier}, kCommon = {cache, settings, pool};

struct Script { std::vector<Job> jobs; int times; };

void perform(const Script& sc, std::vector<Transcript>& out)
{
    for (int i = 0; i < sc.times; i++)
        for (auto& j : sc.jobs)
        {
            out.emplace_back();
            try { j.run(out.back()); }
            catch (const Failure&) { throw; }
            catch (const std::exception& e) { out.back()(std::string("failed: ") + e.what()); }
        }
}

void compare(const Script& sc, const std::vector<Transcript>& alone, const std::vector<Transcript>& together)
{
    check(alone.size() == together.size(), "harness: other jobs");
    for (size_t i = 0; i < alone.size(); i++)
    {
        const Job& j = sc.jobs[i % sc.jobs.size()];
        const Transcript &a = alone[i], &b = together[i];
        check(a.events == b.events, j.name, " (", j.text, ") alone: ", show(a.events), ", beside other threads: ", show(b.events));
        check(a.numbers.size() == b.numbers.size(), j.name, " (", j.text, ") gives ", b.numbers.size(), " numbers beside other threads, ", a.numbers.size(), " alone");
        double most = 0;
        for (double v : a.numbers) most = std::max(most, std::fabs(v));
        for (size_t k = 0; k < a.numbers.size(); k++)
        {
            double u = a.numbers[k], v = b.numbers[k];
            check(u == v || (u != u && v != v) || std::fabs(u - v) <= j.tolerance * most, j.name, " (", j.text, ") gives ", v, " beside other threads, ", u, " alone");
        }
    }
}

void run(Src& s, const std::vector<Maker>& makers)
{
    opt::no_plot();
    g_processors = s.range(1, 4);
    int n = s.range(2, 5);
    bool alike = s.chance(0.4);           // all threads do the same kind of work
    std::vector<Script> scripts;
    Maker kind = s.pick(makers);
    for (int i = 0; i < n; i++)
    {
        Script sc;
        for (int k = s.range(1, 3); k > 0; k--) sc.jobs.push_back((alike ? kind : s.pick(makers))(s));
        sc.times = s.flip() ? 1 : s.range(1, 4);
        scripts.push_back(sc);
        for (auto& j : sc.jobs)
        {
            s.label(j.name);
            if (s.noting()) s.note() << "thread " << i << ", " << sc.times << " times: " << j.name << ": " << j.text.substr(0, 300) << "\n";
        }
    }
    if (alike) s.label("alike");
    s.nontrivial();
    std::vector<std::vector<Transcript>> alone(n), together(n);
    bool first = s.flip();                // what is made on first use is made while the threads run, or before
    auto solo = [&] { for (int i = 0; i < n; i++) perform(scripts[i], alone[i]); };
    if (first) solo();
    std::vector<std::string> errors(n);
    {
        std::atomic<int> ready{0};
        std::vector<std::thread> threads;
        for (int i = 0; i < n; i++)
            threads.emplace_back([&, i]
            {
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
                try { perform(scripts[i], together[i]); }
                catch (const Failure& f) { errors[i] = f.msg; }
            });
        for (auto& t : threads) t.join();
    }
    for (auto& e : errors) if (!e.empty()) fail(Lit{e.c_str()});
    if (!first) solo();
    for (int i = 0; i < n; i++) compare(scripts[i], alone[i], together[i]);
}
}

static void optimization(Src& s) { run(s, kOptimization); }
static void dsp(Src& s) { run(s, kDsp); }
static void common(Src& s) { run(s, kCommon); }
static void all(Src& s)
{
    std::vector<Maker> m = kOptimization;
    m.insert(m.end(), kDsp.begin(), kDsp.end());
    m.insert(m.end(), kCommon.begin(), kCommon.end());
    run(s, m);
}

Property pbt::property()
{
    Property p = {"C35",
        {{"optimization", 3, optimization}, {"dsp", 3, dsp}, {"common", 2, common}, {"all", 2, all}},
        6000, 200000,
        "2 to 5 threads, each with generated work on objects of its own: local optimisers and their clones, grid searches, discrete parameters, splines, wavelet "
        "functions, windowed and fast wavelet transforms, Fourier transforms and convolutions, caches, settings, worker pools; done beside each other and alone, in "
        "either order, built with ThreadSanitizer: results, refusals and the course of each are compared. Non-trivial: every case (two threads at least).",
        {"The schedules of the threads are the operating system's.",
         "Nothing that draws random quantities (the generator is one for the whole process), and no object used by two threads.",
         "FFTW itself is not instrumented."}};
    p.batch = 25;
    p.nondeterministic = true;
    p.block_limit = 20;
    return p;
}
