// C14: merging settings trees keeps everything and lets the winner win.
#include "pbt.h"
#include <k52/common/settings_manager.h>
#include <map>
using namespace pbt;
using boost::property_tree::ptree;

struct Merger : k52::SettingsManager
{
    Merger() : k52::SettingsManager(0, nullptr) {}
    using k52::SettingsManager::Merge;
};

struct T
{
    std::string value;
    std::map<std::string, T> kids;
    bool operator==(const T& o) const { return value == o.value && kids == o.kids; }
};

static std::string text(const T& t, const std::string& p = "")
{
    std::string r = p + ":" + t.value + "\n";
    for (auto& k : t.kids) r += text(k.second, p + "/" + k.first);
    return r;
}

static T from(const ptree& p)
{
    T t;
    t.value = p.data();
    for (auto& k : p)
    {
        check(t.kids.count(k.first) == 0, "the key ", k.first, " is there twice");
        t.kids[k.first] = from(k.second);
    }
    return t;
}

static ptree gen(Src& s, int depth, int& nodes)
{
    static const std::vector<std::string> names = {"a", "b", "c", "d", "a.b", "b.c", "", "<xmlattr>", "long name", "."};
    ptree p;
    if (s.chance(0.7)) p.data() = std::string(s.chance(0.02) ? (size_t)s.range(2, 600) : 1, (char)('A' + s.range(0, 25)));
    nodes++;
    if (depth == 0) return p;
    // deep ones are chains, some are wide
    int n = depth > 4 ? s.range(1, 2) : s.range(0, 4);
    if (depth <= 2 && s.chance(0.02))
        for (int i = s.range(10, 60); i > 0; i--)
            if (s.chance(0.8)) p.push_back(ptree::value_type("k" + std::to_string(i), s.chance(0.9) ? ptree(std::string(1, (char)('A' + s.range(0, 25)))) : gen(s, 1, nodes)));
    std::vector<std::string> used;
    for (int i = 0; i < n; i++)
    {
        std::string k = s.chance(0.8) ? names[s.index(4)] : s.pick(names);
        bool dup = false;
        for (auto& u : used) dup = dup || u == k;
        if (dup) continue;
        used.push_back(k);
        int below = depth > 4 && i ? s.range(0, 2) : depth - 1;
        if (s.flip()) p.push_back(ptree::value_type(k, gen(s, below, nodes)));
        else p.push_front(ptree::value_type(k, gen(s, below, nodes)));
    }
    return p;
}

static T expect(const T& l, const T& r)
{
    T m = l;
    for (auto& k : r.kids)
    {
        auto f = m.kids.find(k.first);
        if (f == m.kids.end()) m.kids[k.first] = k.second;
        else f->second = expect(f->second, k.second);
    }
    return m;
}

// a variation of p: some values changed, some children dropped, some added
static ptree vary(Src& s, const ptree& p)
{
    ptree q;
    q.data() = s.chance(0.4) ? p.data() : p.data() + "'";
    for (auto& k : p)
        if (s.chance(0.7)) q.push_back(ptree::value_type(k.first, vary(s, k.second)));
    if (s.chance(0.3))
    {
        std::string n = s.pick(std::vector<std::string>{"e", "f", "g"});
        int dummy = 0;
        if (q.find(n) == q.not_found()) q.push_back(ptree::value_type(n, gen(s, 1, dummy)));
    }
    return q;
}

static void pairs(Src& s)
{
    int nl = 0, nr = 0;
    int depth = s.chance(0.03) ? s.range(5, 60) : s.range(0, 4);
    ptree l = gen(s, depth, nl);
    ptree r = s.chance(0.5) ? vary(s, l) : gen(s, depth > 4 && s.flip() ? depth : s.range(0, 4), nr);
    if (s.chance(0.05)) l = ptree();
    if (s.chance(0.05)) r = ptree();
    T tl = from(l), tr = from(r);
    s.note("left", "\n" + text(tl)); s.note("right", "\n" + text(tr));
    T want = expect(tl, tr);
    if (!(want == tl) && !(want == tr)) s.nontrivial();
    if (want == tl) s.label("adds nothing");
    ptree m = Merger::Merge(l, r);
    T got = from(m);
    check(got == want, "merged tree is\n", text(got), "expected\n", text(want));
    check(from(l) == tl && from(r) == tr, "an argument was changed");
    check(from(Merger::Merge(l, l)) == tl, "merging a tree with itself changes it");
    check(from(Merger::Merge(m, r)) == want && from(Merger::Merge(m, l)) == want, "merging again changes the result");
    T te;
    te = tl;
    check(from(Merger::Merge(l, ptree())) == te, "merging with an empty tree changes it");
    te = tr;
    te.value = "";
    check(from(Merger::Merge(ptree(), r)) == te, "an empty tree merged with one is not that one");
}

Property pbt::property()
{
    Property p;
    p.id = "C14";
    p.facets = {{"pairs", 1, pairs}};
    p.quick_cases = 100000;
    p.thorough_cases = 12000000;
    p.batch = 1000;
    p.rule = "Pairs of generated property trees of depth up to 5, some to 60, some wide (independent, variations of each other, empty), keys unique per level, some with dots or empty, against the recursive union. "
             "Non-trivial: the merged tree differs from both.";
    return p;
}
