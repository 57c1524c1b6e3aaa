#include "guide.h"
#include "pbt.h"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_set>

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt
{

// ---------------------------------------------------------------- Src
static uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

void Src::start_random(uint64_t seed, Recorder* rec)
{
    replay_ = false; guided_ = false; noting_ = false; nontrivial_ = false;
    in_.clear(); made_.clear(); max_.clear(); pos_ = 0; state_ = seed; rec_ = rec;
    labels_.clear(); notes_.str("");
}

void Src::start_replay(const std::vector<uint64_t>& c, Recorder* rec, bool noting)
{
    replay_ = true; guided_ = false; noting_ = noting; nontrivial_ = false;
    in_ = c; made_.clear(); max_.clear(); pos_ = 0; rec_ = rec;
    labels_.clear(); notes_.str("");
}

void Src::start_guided(const std::vector<uint64_t>& c, uint64_t seed, Recorder* rec)
{
    start_replay(c, rec, false);
    replay_ = !c.empty();
    guided_ = true;
    state_ = seed;
}

uint64_t Src::next64() { return splitmix(state_); }

static const size_t kMaxChoices = 1 << 16;

uint64_t Src::draw(uint64_t max)
{
    uint64_t v;
    if (replay_)
    {
        v = pos_ < in_.size() ? in_[pos_] : 0;
        pos_++;
        if (guided_ && pos_ == in_.size()) replay_ = false;
        if (v > max) v = max == UINT64_MAX ? v : v % (max + 1);
    }
    else if (max == 0) v = 0;
    else if (max == UINT64_MAX) v = next64();
    else
    {
        unsigned __int128 m = (unsigned __int128)next64() * (max + 1);
        v = (uint64_t)(m >> 64);
    }
    made_.push_back(v);
    if (guided_) max_.push_back(max);
    if (rec_) rec_->push(v);
    if (made_.size() > kMaxChoices) throw Discard();
    return v;
}

bool Src::chance(double p)
{
    const uint64_t R = 1000000;
    return draw(R - 1) >= (uint64_t)llround((1 - p) * (double)R);
}

// ---- numbers the code mentions
static std::vector<double> g_numbers;   // sorted
static std::vector<long long> g_integers;

void Src::set_numbers(const std::vector<double>& v)
{
    std::set<double> a;
    std::set<long long> b;
    for (double x : v)
    {
        a.insert(x);
        // smaller ones are drawn often enough
        if (x == std::floor(x) && std::fabs(x) < 9e15 && x >= 10) b.insert((long long)x);
    }
    g_numbers.assign(a.begin(), a.end());
    g_integers.assign(b.begin(), b.end());
}

bool Src::number64(long long lo, long long hi, uint64_t& v)
{
    if (replay_ || g_integers.empty()) return false;
    uint64_t r = next64();
    if (r % 40) return false;
    long long near = (r >> 16) % 8 == 0 ? -1 : (r >> 16) % 8 == 1 ? 1 : 0;
    // counted from one of the ends?
    if ((r >> 32) % 3 == 0)
    {
        long long c = g_integers[(size_t)(next64() % g_integers.size())] + near;
        if (c < 0 || (uint64_t)c > (uint64_t)hi - (uint64_t)lo) return false;
        v = (r >> 40) % 4 ? (uint64_t)c : (uint64_t)hi - (uint64_t)lo - (uint64_t)c;
        return true;
    }
    auto a = std::lower_bound(g_integers.begin(), g_integers.end(), lo), b = std::upper_bound(g_integers.begin(), g_integers.end(), hi);
    if (a >= b) return false;
    v = (uint64_t)*(a + (long)(next64() % (uint64_t)(b - a))) - (uint64_t)lo;
    if (near < 0 ? v > 0 : v < (uint64_t)hi - (uint64_t)lo) v += (uint64_t)near;
    return true;
}

bool Src::number(double lo, double hi, double& v)
{
    if (replay_ || g_numbers.empty()) return false;
    if (next64() % 40) return false;
    auto a = std::lower_bound(g_numbers.begin(), g_numbers.end(), lo), b = std::upper_bound(g_numbers.begin(), g_numbers.end(), hi);
    if (a >= b) return false;
    v = *(a + (long)(next64() % (uint64_t)(b - a)));
    switch (next64() % 6)
    {
    case 0: v = std::nextafter(v, -INFINITY); break;
    case 1: v = std::nextafter(v, INFINITY); break;
    case 2: v *= 1 + 1e-3 * (double)(next64() % 1000) / 1000; break;
    case 3: v *= 1 - 1e-3 * (double)(next64() % 1000) / 1000; break;
    default:;
    }
    return v >= lo && v <= hi;
}

uint64_t Src::draw_as(uint64_t max, uint64_t v)
{
    made_.push_back(v);
    if (guided_) max_.push_back(max);
    if (rec_) rec_->push(v);
    if (made_.size() > kMaxChoices) throw Discard();
    return v;
}

int Src::range(int lo, int hi) { return (int)range64(lo, hi); }
long long Src::range64(long long lo, long long hi)
{
    uint64_t v, max = (uint64_t)hi - (uint64_t)lo;
    if (max > 8 && number64(lo, hi, v)) return (long long)((uint64_t)lo + draw_as(max, v));
    return (long long)((uint64_t)lo + draw(max));
}

int Src::size(int lo, int hi)
{
    if (hi <= lo) return lo;
    uint64_t v;
    if (hi - lo > 8 && number64(lo, hi, v))
    {
        draw_as(9, 8);
        return lo + (int)draw_as((uint64_t)((long long)hi - lo), v);
    }
    int k = (int)draw(9);
    int small = std::min(hi, lo + 8);
    if (k <= 5) return range(lo, small);
    if (k == 6) { int s = range(0, 2); return std::max(lo, hi - s); }
    return range(lo, hi);
}

double Src::unit() { return (double)draw((1ull << 53) - 1) / (double)(1ull << 53); }

double Src::real(double lo, double hi)
{
    double c;
    if (number(lo, hi, c))
    {
        draw_as(7, 7);
        uint64_t u;
        memcpy(&u, &c, 8);
        draw_as(63, 63);
        draw_as(UINT64_MAX, u);
        return c;
    }
    int k = (int)draw(7);
    switch (k)
    {
    case 0: { double v = lo + (hi - lo) * (double)draw(8) / 8.0; return v > hi ? hi : v; }
    case 1:
        {
            // an integer in the range, if there is one
            double a = std::ceil(lo), b = std::floor(hi);
            if (a > b || b - a > 1e15) return lo;
            return a + (double)draw((uint64_t)(b - a));
        }
    case 7:
        // the bits of a number, if there is one
        if (draw(63) == 63)
        {
            uint64_t u = draw(UINT64_MAX);
            double v;
            memcpy(&v, &u, 8);
            return v > hi ? hi : v >= lo && (std::fabs(v) > 1e-100 || v == 0) ? v : lo;
        } // fall through
    default: { double v = lo + (hi - lo) * unit(); return v > hi ? hi : v < lo ? lo : v; }
    }
}

double Src::gauss()
{
    double u1 = unit(), u2 = unit();
    return std::sqrt(-2 * std::log(1 - u1)) * std::cos(6.283185307179586 * u2);
}

double Src::mag(int emin, int emax)
{
    double c;
    if (number(std::pow(10.0, emin), std::pow(10.0, emax), c))
    {
        uint64_t u;
        memcpy(&u, &c, 8);
        draw_as(9, 9);
        draw_as(63, 63);
        draw_as(UINT64_MAX, u);
        return flip() ? -c : c;
    }
    int k = (int)draw(9);
    if (k == 0) return 0;
    if (k <= 2) return (double)range(-10, 10);
    if (k == 9 && draw(63) == 63)
    {
        uint64_t u = draw(UINT64_MAX);
        double v;
        memcpy(&v, &u, 8);
        v = std::fabs(v);
        if (!(v >= std::pow(10.0, emin) && v <= std::pow(10.0, emax))) v = 1;
        return flip() ? -v : v;
    }
    double v = std::pow(10.0, emin + (emax - emin) * unit());
    return flip() ? -v : v;
}

int Src::weighted(const std::vector<int>& w)
{
    uint64_t t = 0;
    for (int x : w) t += (uint64_t)x;
    uint64_t r = draw(t - 1);
    for (size_t i = 0; i < w.size(); i++)
    {
        if (r < (uint64_t)w[i]) return (int)i;
        r -= (uint64_t)w[i];
    }
    return 0;
}

void Src::label(const std::string& l)
{
    if (std::find(labels_.begin(), labels_.end(), l) == labels_.end()) labels_.push_back(l);
}

// ---------------------------------------------------------------- shared slots
enum Status { kIdle = 0, kRunning, kPass, kDiscard, kFail };

struct Slot
{
    volatile int status;
    volatile long case_index;
    volatile double wall_start;
    volatile double cpu_start;
    volatile uint64_t n;
    volatile int done;          // the batch ended normally
    volatile int nontrivial;
    char msg[4096];
    char notes[1 << 17];
    uint64_t choices[kMaxChoices + 8];
};

static Slot* new_slot()
{
    void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return (Slot*)p;
}

struct SlotRecorder : Recorder
{
    Slot* s;
    explicit SlotRecorder(Slot* s) : s(s) {}
    void push(uint64_t v) override
    {
        if (s->n < kMaxChoices) { s->choices[s->n] = v; s->n = s->n + 1; }
    }
};

static double wall()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
static double own_cpu()
{
    timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
static double cpu_of(pid_t p)
{
    clockid_t c;
    timespec t;
    if (clock_getcpuclockid(p, &c) != 0) return 0;
    if (clock_gettime(c, &t) != 0) return 0;
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

// ---------------------------------------------------------------- globals
static Property g_prop;
static std::string g_work;      // scratch directory of this run
static uint64_t g_seed = 1;
static std::string g_only;      // only this facet

static uint64_t case_seed(long i)
{
    uint64_t s = g_seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    for (const char* c = g_prop.id; *c; c++) { s ^= (unsigned char)*c; splitmix(s); }
    s ^= (uint64_t)i * 0xD1B54A32D192ED03ull;
    splitmix(s);
    return splitmix(s);
}

static void run_facet(Src& src)
{
    std::vector<int> w;
    for (auto& f : g_prop.facets) w.push_back(f.weight);
    int k = src.weighted(w);
    if (!g_only.empty() && g_only != g_prop.facets[k].name) throw Discard();
    // the rare ones are so because they take long
    int all = 0;
    for (int x : w) all += x;
    if (src.guided() && w[k] * 50 < all) throw Discard();
    src.label(std::string("facet:") + g_prop.facets[k].name);
    if (src.noting()) src.note() << "facet: " << g_prop.facets[k].name << "\n";
    g_prop.facets[k].fn(src);
}

static void clean_dir(const std::string& d)
{
    DIR* h = opendir(d.c_str());
    if (!h) return;
    while (dirent* e = readdir(h))
    {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        unlink((d + "/" + n).c_str());
    }
    closedir(h);
}

static void child_setup(const std::string& tag)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    std::string d = g_work + "/" + tag;
    mkdir(d.c_str(), 0755);
    if (chdir(d.c_str()) != 0) _exit(3);
    int n = open("/dev/null", O_RDWR);
    dup2(n, 0);
    dup2(n, 1);
    int e = open((g_work + "/" + tag + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    if (e >= 0) dup2(e, 2);
    rlimit c = {0, 0};
    setrlimit(RLIMIT_CORE, &c);
}

// Runs one case in this process. Returns kPass / kDiscard / kFail.
static Status run_case(Src& src, Slot* s)
{
    if (g_prop.before_case) g_prop.before_case();
    try
    {
        run_facet(src);
        return kPass;
    }
    catch (const Discard&) { return kDiscard; }
    catch (const Failure& f) { snprintf(s->msg, sizeof s->msg, "%s", f.msg.c_str()); }
    catch (const std::exception& e) { snprintf(s->msg, sizeof s->msg, "unexpected exception: %s", e.what()); }
    catch (const char* e) { snprintf(s->msg, sizeof s->msg, "unexpected exception: %s", e); }
    catch (...) { snprintf(s->msg, sizeof s->msg, "unexpected exception of unknown type"); }
    return kFail;
}

struct Outcome
{
    enum Kind { Pass, Skip, Fail, Crash, Hang, Killed } kind = Pass;
    std::string msg, notes;
    std::vector<uint64_t> choices;
    bool bad() const { return kind == Fail || kind == Crash || kind == Hang; }
};

static std::string tail_err(const std::string& tag)
{
    std::ifstream f(g_work + "/" + tag + ".err");
    std::string all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    size_t p = all.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = all.find("runtime error:");
    if (p == std::string::npos) p = all.find("WARNING: ThreadSanitizer");
    if (p == std::string::npos) p = all.size() > 600 ? all.size() - 600 : 0;
    else { size_t q = all.rfind('\n', p); p = q == std::string::npos ? 0 : q + 1; }
    return all.substr(p, 1500);
}

static const char* kind_name(Outcome::Kind k)
{
    static const char* n[] = {"pass", "discard", "fail", "crash", "hang", "killed"};
    return n[k];
}

struct Limits { double cpu, block; };

struct Job
{
    pid_t pid = -1;
    Slot* slot = nullptr;
    std::string tag;
    long first = 0, last = 0;
};

// waits for one isolated child, applying the limits; fills the outcome
static bool poll_job(Job& j, const Limits& lim, Outcome& o, bool& over)
{
    int st = 0;
    pid_t r = waitpid(j.pid, &st, WNOHANG);
    Slot* s = j.slot;
    if (r == j.pid)
    {
        over = true;
        o.choices.assign(s->choices, s->choices + s->n);
        if (s->status == kFail) { o.kind = Outcome::Fail; o.msg = s->msg; return true; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->done)
        { o.kind = s->status == kDiscard ? Outcome::Skip : Outcome::Pass; return true; }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
        { o.kind = Outcome::Killed; o.msg = "killed from outside (out of memory?)"; return true; }
        o.kind = Outcome::Crash;
        char b[128];
        if (WIFSIGNALED(st)) snprintf(b, sizeof b, "died of signal %d (%s)\n", WTERMSIG(st), strsignal(WTERMSIG(st)));
        else snprintf(b, sizeof b, "ended the process with exit status %d\n", WEXITSTATUS(st));
        o.msg = std::string(b) + tail_err(j.tag);
        return true;
    }
    over = false;
    if (s->status == kRunning)
    {
        double c = cpu_of(j.pid) - s->cpu_start, w = wall() - s->wall_start;
        bool spin = c > lim.cpu, blocked = w > lim.block && c < 0.02 * w + 0.5;
        if (s->status == kRunning && (spin || blocked) && s->cpu_start > 0)
        {
            kill(j.pid, SIGKILL);
            waitpid(j.pid, &st, 0);
            over = true;
            o.choices.assign(s->choices, s->choices + s->n);
            o.kind = Outcome::Hang;
            char b[200];
            if (spin) snprintf(b, sizeof b, "did not return within %.0f s of CPU time", lim.cpu);
            else snprintf(b, sizeof b, "blocked: did not return within %.0f s and used no CPU", lim.block);
            o.msg = b;
            return true;
        }
    }
    return false;
}

static int g_tag = 0;

static Slot* g_notes = nullptr;
// start a child that replays `cs` (each a case) one after another; the last one counts
static Job start_replay(const std::vector<std::vector<uint64_t>>& cs, bool noting, Slot* slot)
{
    Job j;
    j.slot = slot;
    j.tag = "r" + std::to_string(g_tag++);
    slot->status = kIdle; slot->n = 0; slot->done = 0; slot->msg[0] = 0; slot->notes[0] = 0; slot->cpu_start = 0;
    j.pid = fork();
    if (j.pid < 0) { perror("fork"); exit(3); }
    if (j.pid == 0)
    {
        child_setup(j.tag);
        for (size_t i = 0; i < cs.size(); i++)
        {
            Src src;
            slot->n = 0;
            SlotRecorder rec(slot);
            bool lastc = i + 1 == cs.size();
            src.start_replay(cs[i], &rec, noting && lastc);
            g_notes = noting && lastc ? slot : nullptr;
            slot->wall_start = wall();
            slot->cpu_start = own_cpu();
            slot->status = kRunning;
            Status st = run_case(src, slot);
            if (lastc)
            {
                snprintf(slot->notes, sizeof slot->notes, "%s", src.notes().c_str());
                slot->nontrivial = src.is_nontrivial();
                slot->status = st;
            }
            else if (st == kFail) { slot->status = kPass; }
        }
        slot->done = 1;
        _exit(0);
    }
    return j;
}

void Src::keep_notes() { if (g_notes) snprintf(g_notes->notes, sizeof g_notes->notes, "%s", notes_.str().c_str()); }

static void drop_tag(const std::string& tag)
{
    clean_dir(g_work + "/" + tag);
    rmdir((g_work + "/" + tag).c_str());
    unlink((g_work + "/" + tag + ".err").c_str());
    unlink((g_work + "/" + tag + ".cases").c_str());
}

static Outcome finish(Job& j, const Limits& lim)
{
    Outcome o;
    bool over = false;
    int spins = 0;
    while (!poll_job(j, lim, o, over))
    {
        usleep(spins < 200 ? 200 : 3000);
        spins++;
    }
    o.notes = j.slot->notes;
    drop_tag(j.tag);
    return o;
}

static Outcome isolated(const std::vector<std::vector<uint64_t>>& cs, const Limits& lim, bool noting = false)
{
    static Slot* slot = new_slot();
    Job j = start_replay(cs, noting, slot);
    return finish(j, lim);
}

// n replays at once
static std::vector<Outcome> isolated_n(const std::vector<std::vector<uint64_t>>& cs, const Limits& lim, int n)
{
    static std::vector<Slot*> slots;
    while ((int)slots.size() < n) slots.push_back(new_slot());
    std::vector<Job> js;
    for (int i = 0; i < n; i++) js.push_back(start_replay(cs, false, slots[i]));
    std::vector<Outcome> r;
    for (int i = 0; i < n; i++) r.push_back(finish(js[i], lim));
    return r;
}

// ---------------------------------------------------------------- shrinking
static std::vector<uint64_t> shrink(std::vector<uint64_t> best, Outcome::Kind kind,
                                    const std::vector<std::vector<uint64_t>>& prefix,
                                    double secs, const Limits& lim, long& tries)
{
    double end = wall() + secs;
    bool any = true;
    std::set<std::vector<uint64_t>> seen;
    auto attempt = [&](const std::vector<uint64_t>& c) -> bool
    {
        if (wall() > end) return false;
        if (!seen.insert(c).second) return false;
        tries++;
        std::vector<std::vector<uint64_t>> cs = prefix;
        cs.push_back(c);
        Outcome o = isolated(cs, lim);
        if (o.kind == kind)
        {
            // what was really consumed, trailing zeros dropped
            std::vector<uint64_t> used = o.choices;
            while (!used.empty() && used.back() == 0) used.pop_back();
            if (used.size() > c.size()) used = c;
            best = used;
            return true;
        }
        return false;
    };
    while (any && wall() < end)
    {
        any = false;
        // delete chunks
        for (size_t k : {64, 32, 16, 8, 4, 3, 2, 1})
        {
            for (size_t i = best.size(); i-- > 0 && wall() < end;)
            {
                if (i + k > best.size()) continue;
                std::vector<uint64_t> c = best;
                c.erase(c.begin() + (long)i, c.begin() + (long)(i + k));
                if (attempt(c)) { any = true; i = std::min(i, best.size()); }
                if (k >= 8 && i >= k) i -= k - 1;
            }
        }
        // lower a length and delete what follows
        for (size_t i = 0; i < best.size() && wall() < end; i++)
        {
            if (best[i] == 0 || best[i] > 200) continue;
            for (size_t k = 1; k <= 4; k++)
                for (size_t j = i + 1; j + k <= best.size() && j < i + 24 && wall() < end; j++)
                {
                    if (best[i] == 0) break;
                    std::vector<uint64_t> c = best;
                    c[i]--;
                    c.erase(c.begin() + (long)j, c.begin() + (long)(j + k));
                    if (attempt(c)) any = true;
                }
        }
        // zero chunks
        for (size_t k : {16, 4, 1})
            for (size_t i = 0; i + k <= best.size() && wall() < end; i += k)
            {
                std::vector<uint64_t> c = best;
                bool z = true;
                for (size_t j = i; j < i + k; j++) { z = z && c[j] == 0; c[j] = 0; }
                if (!z && attempt(c)) any = true;
            }
        // lower single values
        for (size_t i = 0; i < best.size() && wall() < end; i++)
        {
            uint64_t lo = 0;
            while (i < best.size() && lo < best[i] && wall() < end)
            {
                uint64_t mid = lo + (best[i] - lo) / 2;
                std::vector<uint64_t> c = best;
                c[i] = mid;
                uint64_t before = best[i];
                if (attempt(c)) { any = true; if (i >= best.size() || best[i] >= before) break; }
                else lo = mid + 1;
            }
        }
    }
    return best;
}

// ---------------------------------------------------------------- stats
static std::map<std::string, long> g_labels;
static std::unordered_set<uint64_t> g_hashes;
static long g_evals = 0, g_discards = 0, g_nontrivial = 0, g_killed = 0, g_batches = 0;
static std::vector<std::vector<uint64_t>> g_samples;

static uint64_t hash_choices(const std::vector<uint64_t>& c)
{
    uint64_t h = 0xcbf29ce484222325ull;
    for (uint64_t v : c) { h ^= v; h *= 0x100000001b3ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; }
    return h;
}

// ---------------------------------------------------------------- breeding
// Cases that reached something new in the repository's code are kept; later cases are
// made of them by small changes. What each batch starts with depends on the seed alone:
// the batches of a round all start with what the rounds before it found.
struct Kept
{
    std::vector<uint64_t> v, max;
};

static std::vector<Kept> g_corpus;
static std::vector<uint64_t> g_seen(guide::kFeatures / 64 + 1);
static long g_guided = 0, g_features = 0;
static const size_t kKeptChoices = 3000, kKeptAll = 6u << 20;
static size_t g_kept_choices = 0;
static double g_cost = 0, g_costs = 0;  // of the random ones among these cases
static double g_spent = 0;              // by all of them

static bool see(uint32_t f)
{
    uint64_t m = 1ull << (f & 63);
    if (g_seen[f >> 6] & m) return false;
    g_seen[f >> 6] |= m;
    return true;
}

static uint64_t below(uint64_t& st, uint64_t n) { return n == 0 ? 0 : splitmix(st) % n; }

static uint64_t change_value(uint64_t& st, const Kept& e, size_t i)
{
    uint64_t v = e.v[i], m = e.max[i];
    uint64_t r = m == UINT64_MAX ? splitmix(st) : below(st, m + 1);
    int bits = m == 0 ? 1 : 64 - __builtin_clzll(m);
    uint64_t step = 1ull << below(st, (uint64_t)bits);
    step = step == 1 ? 1 : 1 + below(st, step);
    switch (below(st, 8))
    {
    case 0: return 0;
    case 1: return m;
    case 2: return m - v < step ? m : v + step;
    case 3: return v < step ? 0 : v - step;
    case 4: { uint64_t w = v ^ (1ull << below(st, (uint64_t)bits)); return w > m ? r : w; }
    case 5: { size_t j = (size_t)below(st, e.v.size()); return e.v[j] > m ? r : e.v[j]; }
    default: return r;
    }
}

static std::vector<uint64_t> breed(uint64_t& st)
{
    if (g_corpus.empty() || below(st, 12) == 0) return {};
    auto choose = [&]() -> const Kept&
    {
        size_t n = g_corpus.size(), recent = n / 5 + 1;
        return below(st, 2) ? g_corpus[n - 1 - (size_t)below(st, std::min(n, recent))] : g_corpus[(size_t)below(st, n)];
    };
    Kept e = choose();
    int k = 1;
    while (k < 16 && below(st, 2)) k++;
    while (k-- > 0 && !e.v.empty())
    {
        size_t n = e.v.size();
        size_t i = (size_t)below(st, below(st, 2) ? std::min<size_t>(n, 40) : n);
        size_t len = 1 + (size_t)below(st, below(st, 3) ? 4 : 32);
        len = std::min(len, n - i);
        switch (below(st, 14))
        {
        case 0:
            e.v.erase(e.v.begin() + (long)i, e.v.begin() + (long)(i + len));
            e.max.erase(e.max.begin() + (long)i, e.max.begin() + (long)(i + len));
            break;
        case 1:
            {
                std::vector<uint64_t> a(e.v.begin() + (long)i, e.v.begin() + (long)(i + len)), b(e.max.begin() + (long)i, e.max.begin() + (long)(i + len));
                e.v.insert(e.v.begin() + (long)i, a.begin(), a.end());
                e.max.insert(e.max.begin() + (long)i, b.begin(), b.end());
                break;
            }
        case 2:
            e.v.resize(i + 1);
            e.max.resize(i + 1);
            break;
        case 3:
            {
                const Kept& o = choose();
                for (int t = 0; t < 8; t++)
                {
                    size_t j = (size_t)below(st, o.v.size());
                    if (o.max[j] != e.max[i]) continue;
                    e.v.resize(i);
                    e.max.resize(i);
                    e.v.insert(e.v.end(), o.v.begin() + (long)j, o.v.end());
                    e.max.insert(e.max.end(), o.max.begin() + (long)j, o.max.end());
                    break;
                }
                break;
            }
        case 4:
            for (size_t j = i; j < i + len; j++) e.v[j] = change_value(st, e, j);
            break;
        default: e.v[i] = change_value(st, e, i);
        }
    }
    return e.v;
}

static void write_choices(FILE* f, const std::vector<uint64_t>& v)
{
    uint64_t n = v.size();
    fwrite(&n, 8, 1, f);
    if (n) fwrite(v.data(), 8, n, f);
}

static bool read_choices(FILE* f, std::vector<uint64_t>& v)
{
    uint64_t n = 0;
    if (fread(&n, 8, 1, f) != 1 || n > (kMaxChoices + 8) * 4) return false;
    v.resize(n);
    return n == 0 || fread(v.data(), 8, n, f) == n;
}

// what the batch found, after the others of its round and before the next one
static void merge_batch(const std::string& tag)
{
    std::string p = g_work + "/" + tag + ".kept";
    FILE* f = fopen(p.c_str(), "rb");
    if (!f) return;
    Kept e;
    std::vector<uint64_t> fs;
    while (read_choices(f, e.v) && read_choices(f, e.max) && read_choices(f, fs))
    {
        if (e.v.empty())
        {
            g_cost += (double)e.max[0];
            g_costs += (double)e.max[1];
            g_spent += (double)e.max[2];
            continue;
        }
        bool fresh = false;
        for (uint64_t x : fs) if (see((uint32_t)x)) { fresh = true; g_features++; }
        if (!fresh || g_kept_choices + e.v.size() > kKeptAll) continue;
        g_kept_choices += e.v.size();
        g_corpus.push_back(e);
    }
    fclose(f);
    unlink(p.c_str());
}

static std::vector<std::vector<uint64_t>> read_cases(const std::string& tag)
{
    std::vector<std::vector<uint64_t>> r;
    FILE* f = fopen((g_work + "/" + tag + ".cases").c_str(), "rb");
    if (!f) return r;
    std::vector<uint64_t> v;
    while (read_choices(f, v)) r.push_back(v);
    fclose(f);
    return r;
}

static void run_batch(Slot* slot, const std::string& tag, long first, long last, bool guided)
{
    child_setup(tag);
    std::map<std::string, long> labels;
    std::vector<uint64_t> hashes;
    long evals = 0, discards = 0;
    std::vector<uint64_t> sample;
    uint64_t batch_cost = 0, batch_costs = 0, spent = 0;
    uint64_t st = case_seed(first) ^ 0x5DEECE66Dull;
    FILE* kept = guided ? fopen((g_work + "/" + tag + ".kept").c_str(), "wb") : nullptr;
    FILE* cases = guided ? fopen((g_work + "/" + tag + ".cases").c_str(), "wb") : nullptr;
    for (long i = first; i < last; i++)
    {
        Src src;
        slot->n = 0;
        slot->case_index = i;
        SlotRecorder rec(slot);
        bool random = false;
        if (guided)
        {
            std::vector<uint64_t> c = breed(st);
            random = c.empty();
            src.start_guided(c, case_seed(i), &rec);
        }
        else src.start_random(case_seed(i), &rec);
        slot->wall_start = wall();
        slot->cpu_start = own_cpu();
        slot->status = kRunning;
        if (guided) guide::begin();
        Status outcome = run_case(src, slot);
        guide::end();
        slot->status = outcome;
        if (outcome == kFail) _exit(0);
        if (cases) { write_choices(cases, src.choices()); fflush(cases); }
        if (guided) spent += guide::cost();
        if (outcome == kDiscard) { discards++; continue; }
        evals++;
        if (guided)
        {
            bool affordable = true;
            for (auto& l : src.labels()) guide::mark(std::hash<std::string>()(l));
            if (random) { batch_cost += guide::cost(); batch_costs++; }
            // large ones would breed larger ones
            double mean = (g_cost + (double)batch_cost) / std::max(1.0, g_costs + (double)batch_costs);
            if (guide::cost() > 6 * mean + 100) affordable = false;
            std::vector<uint64_t> fresh;
            if (affordable) for (uint32_t f : guide::features()) if (see(f)) fresh.push_back(f);
            if (!fresh.empty() && src.choices().size() <= kKeptChoices && !src.choices().empty())
            {
                g_corpus.push_back(Kept{src.choices(), src.limits()});
                write_choices(kept, src.choices());
                write_choices(kept, src.limits());
                write_choices(kept, fresh);
            }
        }
        for (auto& l : src.labels()) labels[l]++;
        if (src.is_nontrivial())
        {
            hashes.push_back(hash_choices(src.choices()));
            if (sample.empty() || (src.choices().size() < 400 && (i % 7) == 0)) sample = src.choices();
        }
    }
    if (kept)
    {
        write_choices(kept, {});
        write_choices(kept, {batch_cost, batch_costs, spent});
        write_choices(kept, {});
        fclose(kept);
    }
    if (cases) fclose(cases);
    FILE* f = fopen((g_work + "/" + tag + ".stats").c_str(), "wb");
    if (f)
    {
        fprintf(f, "E %ld %ld\n", evals, discards);
        for (auto& l : labels) fprintf(f, "L %ld %s\n", l.second, l.first.c_str());
        for (auto h : hashes) fprintf(f, "H %llx\n", (unsigned long long)h);
        fprintf(f, "S");
        for (auto c : sample) fprintf(f, " %llu", (unsigned long long)c);
        fprintf(f, "\n");
        fclose(f);
    }
    slot->done = 1;
    slot->status = kPass;
    _exit(0);
}

static void read_stats(const std::string& tag)
{
    std::string p = g_work + "/" + tag + ".stats";
    std::ifstream f(p);
    std::string line;
    while (std::getline(f, line))
    {
        if (line.empty()) continue;
        std::istringstream is(line.substr(1));
        if (line[0] == 'E') { long a, b; is >> a >> b; g_evals += a; g_discards += b; }
        else if (line[0] == 'L') { long a; is >> a; std::string l; std::getline(is, l); g_labels[l.substr(1)] += a; }
        else if (line[0] == 'H') { unsigned long long h; is >> std::hex >> h; g_nontrivial++; g_hashes.insert(h); }
        else if (line[0] == 'S')
        {
            std::vector<uint64_t> c;
            unsigned long long v;
            while (is >> v) c.push_back(v);
            if (!c.empty() && g_samples.size() < 24) g_samples.push_back(c);
        }
    }
    unlink(p.c_str());
}

// ---------------------------------------------------------------- output
static std::string json_str(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

static std::string clip(const std::string& s, size_t n) { return s.size() <= n ? s : s.substr(0, n) + " ..."; }

static void write_replay(const std::string& path, const std::vector<std::vector<uint64_t>>& cs, const Outcome& o)
{
    FILE* f = fopen(path.c_str(), "wb");
    if (!f) { perror(path.c_str()); return; }
    fprintf(f, "property %s\nkind %s\n", g_prop.id, kind_name(o.kind));
    for (auto& c : cs)
    {
        fprintf(f, "choices");
        for (auto v : c) fprintf(f, " %llu", (unsigned long long)v);
        fprintf(f, "\n");
    }
    std::istringstream m("message: " + o.msg + "\ncase:\n" + o.notes);
    std::string l;
    while (std::getline(m, l)) fprintf(f, "# %s\n", l.c_str());
    fclose(f);
}

static std::vector<std::vector<uint64_t>> read_replay(const std::string& path)
{
    std::vector<std::vector<uint64_t>> r;
    std::ifstream f(path);
    std::string l;
    while (std::getline(f, l))
    {
        std::istringstream is(l);
        std::string w;
        is >> w;
        if (w != "choices") continue;
        std::vector<uint64_t> c;
        unsigned long long v;
        while (is >> v) c.push_back(v);
        r.push_back(c);
    }
    return r;
}

static void write_evidence(const std::string& path, const std::string& tier, double wall_s, long violations,
                           bool truncated, long planned, const std::vector<std::string>& samples,
                           const std::string& violation)
{
    FILE* f = fopen((path + ".tmp").c_str(), "wb");
    if (!f) { perror(path.c_str()); return; }
    fprintf(f, "{\n \"property\": %s,\n \"tier\": %s,\n \"seed\": %llu,\n \"level\": \"exploration\",\n",
            json_str(g_prop.id).c_str(), json_str(tier).c_str(), (unsigned long long)g_seed);
    fprintf(f, " \"coverage\": {\n  \"evaluations\": %ld,\n  \"distinct_nontrivial\": %ld,\n  \"rule\": %s,\n",
            g_evals, (long)g_hashes.size(), json_str(g_prop.rule).c_str());
    fprintf(f, "  \"planned_cases\": %ld,\n  \"discarded\": %ld,\n  \"processes\": %ld,\n  \"truncated_by_time_cap\": %s,\n", planned,
            g_discards, g_batches, truncated ? "true" : "false");
    if (g_guided)
        fprintf(f, "  \"bred_for_coverage\": {\"planned_cases\": %ld, \"kept_cases\": %ld, \"features\": %ld},\n", g_guided, (long)g_corpus.size(), g_features);
    fprintf(f, "  \"labels\": {");
    bool first = true;
    for (auto& l : g_labels)
    {
        fprintf(f, "%s\n   %s: %ld", first ? "" : ",", json_str(l.first).c_str(), l.second);
        first = false;
    }
    fprintf(f, "},\n  \"samples\": [");
    for (size_t i = 0; i < samples.size(); i++)
        fprintf(f, "%s\n   %s", i ? "," : "", json_str(clip(samples[i], 1800)).c_str());
    fprintf(f, "]%s%s\n },\n \"assumptions\": [", violation.empty() ? "" : ",\n  \"violation\": ",
            violation.empty() ? "" : json_str(violation).c_str());
    for (size_t i = 0; i < g_prop.assumptions.size(); i++)
        fprintf(f, "%s%s", i ? ", " : "", json_str(g_prop.assumptions[i]).c_str());
    fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %ld\n}\n", wall_s, violations);
    fclose(f);
    rename((path + ".tmp").c_str(), path.c_str());
}

} // namespace pbt

using namespace pbt;

int main(int argc, char** argv)
{
    std::string tier = "quick", out, replay_dir = ".", replay, work;
    long cases = -1, guided_cases = -1;
    int workers = 8;
    double cap = -1;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") g_seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--tier") tier = val();
        else if (a == "--out") out = val();
        else if (a == "--replay-dir") replay_dir = val();
        else if (a == "--replay") replay = val();
        else if (a == "--work") work = val();
        else if (a == "--cases") cases = atol(val().c_str());
        else if (a == "--workers") workers = atoi(val().c_str());
        else if (a == "--cap") cap = atof(val().c_str());
        else if (a == "--facet") g_only = val();
        else if (a == "--numbers")
        {
            std::ifstream f(val());
            std::vector<double> v;
            double x;
            while (f >> x) v.push_back(x);
            Src::set_numbers(v);
        }
        else if (a == "--guided") guided_cases = atol(val().c_str());
    }
    signal(SIGPIPE, SIG_IGN);
    g_prop = property();
    g_work = work;
    if (g_work.empty()) { fprintf(stderr, "--work is needed\n"); return 2; }
    mkdir(g_work.c_str(), 0755);
    double t0 = wall();
    Limits lim = {g_prop.cpu_limit, g_prop.block_limit};

    if (!replay.empty())
    {
        auto cs = read_replay(replay);
        if (cs.empty()) { fprintf(stderr, "no choices in %s\n", replay.c_str()); return 2; }
        Outcome o = isolated(cs, lim, true);
        printf("outcome: %s\n%s\ncase:\n%s\n", kind_name(o.kind), o.msg.c_str(), o.notes.c_str());
        if (o.bad()) printf("VIOLATION property=%s replay=%s\n", g_prop.id, replay.c_str());
        return o.bad() ? 1 : 0;
    }

    bool thorough = tier == "thorough";
    long planned = cases >= 0 ? cases : thorough ? g_prop.thorough_cases : g_prop.quick_cases;
    if (cap < 0) cap = thorough ? 6 * 3600 : 360;
    // after the random cases those bred for coverage, in rounds
    const bool alone = g_prop.batch == 1;       // every case needs a process of its own
    const long kRound = alone ? 64 : 16;
    long plain = planned, bred = 0, round_end = plain, bred_batch = alone ? 1 : std::max(5, g_prop.batch / 2);
    std::vector<std::string> round_tags;
    if (g_prop.guided && !g_prop.nondeterministic)
    {
        if (guided_cases >= 0) bred = guided_cases;
        else bred = thorough ? planned : planned / 2;
        planned += bred;
    }

    std::vector<Job> jobs;
    std::vector<Slot*> slots;
    for (int i = 0; i < workers; i++) slots.push_back(new_slot());
    std::vector<Slot*> idle = slots;
    long next = 0;
    bool truncated = false, found = false;
    Outcome bad;
    long bad_index = -1, bad_first = 0;
    std::vector<std::vector<uint64_t>> bad_cases;
    int killed = 0, unreproduced = 0;
    std::vector<std::string> unrep_msgs;
    std::vector<std::vector<uint64_t>> final_cs;
    Outcome final_o;
    long shrink_tries = 0;

    while (!found)
    {
        if (next >= plain && next == round_end && next < planned && jobs.empty())
        {
            for (auto& t : round_tags) merge_batch(t);
            round_tags.clear();
            // they may cost twice as much as random ones
            if (g_costs > 20 && g_spent > 2 * bred * (g_cost / g_costs)) { planned = next; continue; }
            round_end = std::min(planned, next + kRound * bred_batch);
        }
        while (!idle.empty() && next < (next < plain ? plain : round_end) && !truncated)
        {
            if (wall() - t0 > cap) { truncated = true; break; }
            bool guided = next >= plain;
            Job j;
            j.slot = idle.back();
            idle.pop_back();
            j.tag = "b" + std::to_string(g_tag++);
            j.first = next;
            j.last = guided ? std::min(round_end, next + bred_batch) : std::min(plain, next + g_prop.batch);
            if (guided) { round_tags.push_back(j.tag); g_guided += j.last - j.first; }
            next = j.last;
            Slot* s = j.slot;
            s->status = kIdle; s->n = 0; s->done = 0; s->msg[0] = 0; s->cpu_start = 0; s->case_index = -1;
            g_batches++;
            j.pid = fork();
            if (j.pid < 0) { perror("fork"); return 3; }
            if (j.pid == 0) run_batch(s, j.tag, j.first, j.last, guided);
            jobs.push_back(j);
        }
        if (jobs.empty()) break;
        bool progress = false;
        for (size_t k = 0; k < jobs.size(); k++)
        {
            Outcome o;
            bool over = false;
            if (!poll_job(jobs[k], lim, o, over)) continue;
            progress = true;
            Job j = jobs[k];
            jobs.erase(jobs.begin() + (long)k);
            long idx = j.slot->case_index;
            read_stats(j.tag);
            if (o.bad() && o.kind != Outcome::Killed) bad_cases = read_cases(j.tag);
            drop_tag(j.tag);
            idle.push_back(j.slot);
            if (o.kind == Outcome::Killed) killed++;
            else if (o.bad()) { bad = o; bad_index = idx; bad_first = j.first; found = true; }
            break;
        }
        if (!found) { if (!progress) usleep(1000); continue; }

        // ---- a candidate: is it reproducible?
        for (auto& j : jobs) { kill(j.pid, SIGKILL); int st; waitpid(j.pid, &st, 0); read_stats(j.tag); drop_tag(j.tag); idle.push_back(j.slot); }
        jobs.clear();
        final_cs = {bad.choices};
        int need = 3;
        auto reproduces = [&](const std::vector<std::vector<uint64_t>>& cs, Outcome::Kind& kind) -> bool
        {
            int tries = g_prop.nondeterministic ? 40 : need, hits = 0;
            if (g_prop.nondeterministic && bad.kind == Outcome::Hang) tries = 8;
            auto rs = isolated_n(cs, lim, g_prop.nondeterministic ? 8 : need);
            for (auto& r : rs) if (r.bad()) { hits++; kind = r.kind; }
            if (g_prop.nondeterministic)
            {
                for (int t = 8; t < tries && hits == 0; t += 8)
                    for (auto& r : isolated_n(cs, lim, 8)) if (r.bad()) { hits++; kind = r.kind; }
                return hits > 0;
            }
            return hits == need;
        };
        Outcome::Kind kind = bad.kind;
        bool rep = reproduces(final_cs, kind);
        std::vector<std::vector<uint64_t>> prefix;
        if (!rep && bad_index > bad_first)
        {
            // state left behind by earlier cases of the same process?
            if (bad_index >= plain) prefix = bad_cases;
            else for (long i = bad_first; i < bad_index; i++)
            {
                // regenerate the choices of case i in a child of its own
                Slot* s = slots[0];
                s->n = 0; s->status = kIdle; s->done = 0; s->cpu_start = 0;
                std::string tag = "g" + std::to_string(g_tag++);
                pid_t p = fork();
                if (p == 0)
                {
                    child_setup(tag);
                    Src src;
                    SlotRecorder rec(s);
                    src.start_random(case_seed(i), &rec);
                    run_case(src, s);
                    s->done = 1;
                    _exit(0);
                }
                Job j; j.pid = p; j.slot = s; j.tag = tag;
                s->status = kRunning; s->wall_start = wall();
                int st; waitpid(p, &st, 0);
                prefix.push_back(std::vector<uint64_t>(s->choices, s->choices + s->n));
                drop_tag(tag);
            }
            std::vector<std::vector<uint64_t>> cs = prefix;
            cs.push_back(bad.choices);
            rep = reproduces(cs, kind);
            if (rep)
            {
                // drop what is not needed of the history
                for (size_t k = prefix.size() / 2 + 1; k >= 1; k = k == 1 ? 0 : k / 2)
                    for (size_t i = 0; i + k <= prefix.size();)
                    {
                        auto p2 = prefix;
                        p2.erase(p2.begin() + (long)i, p2.begin() + (long)(i + k));
                        auto c2 = p2;
                        c2.push_back(bad.choices);
                        if (isolated(c2, lim).bad()) prefix = p2; else i += k;
                    }
            }
            else prefix.clear();
        }
        if (!rep && !(g_prop.nondeterministic && bad.kind == Outcome::Fail))
        {
            // Not reproducible: no verdict from it, go on.
            unreproduced++;
            unrep_msgs.push_back(clip(bad.msg, 300));
            g_labels["unreproduced-candidates"]++;
            found = false;
            if (unreproduced >= 5) { truncated = true; next = planned; }
            // the batches that were ended are not made up for
            if (next >= plain && next < planned) round_end = next;
            continue;
        }
        std::vector<uint64_t> best = bad.choices;
        bad.kind = kind;
        if (rep)
        {
            Limits sl = lim;
            const char* limit = getenv("VERIF_SHRINK_SECONDS");
            double secs = limit ? atof(limit) : 60;
            if (kind == Outcome::Hang) { sl.cpu = 3; sl.block = 3; }
            if (!g_prop.nondeterministic)
            {
                auto s = shrink(bad.choices, kind, prefix, secs, sl, shrink_tries);
                auto cs = prefix;
                cs.push_back(s);
                Outcome::Kind k2;
                if (reproduces(cs, k2)) { best = s; kind = k2; }
            }
        }
        final_cs = prefix;
        final_cs.push_back(best);
        final_o = isolated(final_cs, lim, true);
        if (!final_o.bad())
        {
            std::string notes = final_o.notes;
            final_o = bad;
            final_o.notes = notes;
        }
    }

    // samples, written out
    std::vector<std::string> samples;
    {
        size_t step = std::max<size_t>(1, g_samples.size() / 5);
        std::set<std::string> facets;
        for (size_t i = 0; i < g_samples.size() && samples.size() < 6; i += step)
        {
            Outcome o = isolated({g_samples[i]}, lim, true);
            if (!o.notes.empty()) samples.push_back(o.notes);
        }
    }
    double dt = wall() - t0;
    std::string vio;
    if (found)
    {
        mkdir(replay_dir.c_str(), 0755);
        std::string rp = replay_dir + "/" + g_prop.id + "-" + std::to_string(hash_choices(final_cs.back()) % 1000000) + ".replay";
        write_replay(rp, final_cs, final_o);
        vio = std::string(kind_name(final_o.kind)) + ": " + final_o.msg + "\ncase:\n" + clip(final_o.notes, 3000);
        printf("%s: %s after %ld cases (shrunk with %ld attempts)\n%s\ncase:\n%s\n", g_prop.id, kind_name(final_o.kind),
               g_evals, shrink_tries, final_o.msg.c_str(), clip(final_o.notes, 4000).c_str());
        printf("VIOLATION property=%s replay=%s\n", g_prop.id, rp.c_str());
    }
    if (!out.empty()) write_evidence(out, tier, dt, found ? 1 : 0, truncated, planned, samples, vio);
    if (!found)
    {
        printf("%s: held on %ld cases (%ld distinct non-trivial, %ld discarded) in %.1f s%s\n", g_prop.id, g_evals,
               (long)g_hashes.size(), g_discards, dt, truncated ? " [time cap]" : "");
        if (g_guided) printf("  bred for coverage: %ld, kept %ld, features %ld\n", g_guided, (long)g_corpus.size(), g_features);
        for (auto& l : g_labels) printf("  %-40s %ld\n", l.first.c_str(), l.second);
        for (auto& m : unrep_msgs) printf("  not reproduced: %s\n", m.c_str());
        if (killed) printf("  %d worker(s) were killed from outside\n", killed);
    }
    fflush(stdout);
    return found ? 1 : 0;
}
