// C12: the bounded cache answers with the last value stored or not at all.
#include "pbt.h"
#include <k52/common/cache.h>
#include <map>
#include <set>
#include <boost/functional/hash.hpp>
using namespace pbt;
using k52::common::Cache;
using k52::common::StoredValue;

// A key all of whose values collide.
struct BadKey
{
    int v;
    bool operator==(const BadKey& o) const { return v == o.v; }
};
inline size_t hash_value(const BadKey&) { return 7; }
namespace pbt { inline void put(std::ostream& o, const BadKey& k) { o << "k" << k.v; } }

template<class K> K make_key(int i);
template<> int make_key<int>(int i) { return i * 1000003; }
template<> BadKey make_key<BadKey>(int i) { return BadKey{i}; }
template<> std::vector<bool> make_key<std::vector<bool>>(int i)
{
    std::vector<bool> r;
    while (i) { r.push_back(i & 1); i >>= 1; }
    return r;   // 0 is the empty key
}

template<class V> V make_value(int i);
template<> double make_value<double>(int i) { return i / 8.0; }
template<> std::vector<int> make_value<std::vector<int>>(int i) { return std::vector<int>((size_t)(i % 5), i); }

struct Entry { int value; int uses; };

template<class K, class V> static void history(Src& s)
{
    typedef Cache<K, V> C;
    typedef typename C::CacheRecord Rec;
    const double e = sizeof(K) + sizeof(typename C::cache_map_type::value_type);
    bool many = s.chance(0.01);
    int nkeys = s.range(1, many ? 120 : 14);
    int cap = s.chance(0.25) ? 1000 : s.range(0, many ? 100 : 9);
    s.note("keys", nkeys); s.note("limit, in entries", cap + 0.5);
    typename C::shared_ptr c = C::Create((cap + 0.5) * e / 1048576);
    check((bool)c, "no cache for a positive limit");
    std::map<int, Entry> m;
    int next = 1, evictions = 0, refused = 0, hits = 0, ops = many ? s.range(60, 400) : s.size(1, 60);
    for (int op = 0; op < ops; op++)
    {
        int kind = s.weighted({4, 2, 3, 4});
        int k = s.range(0, nkeys - 1);
        if (kind <= 1)
        {
            std::vector<std::pair<int, int>> add;
            int n = kind == 0 ? 1 : s.range(0, 4);
            for (int i = 0; i < n; i++)
                add.push_back({i && s.chance(0.3) ? add[s.index(add.size())].first : (i ? s.range(0, nkeys - 1) : k), next++});
            if (s.noting())
            {
                s.note() << (kind == 0 ? "store" : "store many");
                for (auto& a : add) s.note() << " " << a.first << ":=" << a.second;
                s.note() << "\n";
            }
            bool exceeded = m.size() > (size_t)cap;
            size_t used = 0;
            for (auto& q : m) used += q.second.uses > 0;
            bool threw = false;
            try
            {
                if (kind == 0) c->AddValue(make_key<K>(k), make_value<V>(add[0].second));
                else
                {
                    std::vector<Rec> recs;
                    for (auto& a : add) recs.push_back(Rec(make_key<K>(a.first), make_value<V>(a.second)));
                    c->AddValues(recs);
                }
            }
            catch (const std::runtime_error&) { threw = true; }
            check(threw == (used > (size_t)cap), threw ? "refused" : "accepted", " with ", used, " used entries of ", m.size(), " and room for ", cap);
            refused += threw;
            // what may have been evicted: unused entries, only when the limit was exceeded
            for (auto it = m.begin(); it != m.end();)
            {
                bool there = c->IsCached(make_key<K>(it->first));
                bool replaced = false;
                if (!threw) for (auto& a : add) replaced = replaced || a.first == it->first;
                if (replaced) check(there, "a key just stored is not there: ", it->first);
                if (!there)
                {
                    check(exceeded, "entry ", it->first, " evicted though the limit was not exceeded (", m.size(), " entries, room for ", cap, ")");
                    check(it->second.uses == 0, "entry ", it->first, " evicted though it was used");
                    evictions++;
                    it = m.erase(it);
                }
                else ++it;
            }
            if (!threw)
            {
                std::set<int> fresh;
                for (auto& a : add) { m[a.first] = Entry{a.second, 0}; fresh.insert(a.first); }
                check(m.size() <= (size_t)cap + fresh.size(), m.size(), " entries kept with room for ", cap, " and ", fresh.size(), " new");
            }
        }
        else if (kind == 2)
        {
            if (s.noting()) s.note() << "is cached? " << k << "\n";
            bool got = c->IsCached(make_key<K>(k));
            check(got == (m.count(k) > 0), "key ", k, got ? " is said to be cached" : " is said not to be cached");
        }
        else
        {
            if (s.noting()) s.note() << "fetch " << k << "\n";
            if (m.count(k))
            {
                V got = c->GetCachedValue(make_key<K>(k));
                check(got == make_value<V>(m[k].value), "key ", k, " has the value ", got, ", last stored ", make_value<V>(m[k].value));
                m[k].uses++;
                hits++;
            }
            else must_throw<std::runtime_error>("fetch of a key without a value", [&] { c->GetCachedValue(make_key<K>(k)); });
        }
        // the whole state
        for (int q = 0; q < nkeys; q++)
            check(c->IsCached(make_key<K>(q)) == (m.count(q) > 0), "key ", q, m.count(q) ? " has lost its value" : " has a value out of nowhere", " after step ", op);
    }
    // all values (this uses them, so only at the end)
    for (int q = 0; q < nkeys; q++)
        if (m.count(q)) check(c->GetCachedValue(make_key<K>(q)) == make_value<V>(m[q].value), "key ", q, " has another value at the end");
    if (hits && m.size() > 1) s.nontrivial();
    if (evictions) s.label("evicted");
    if (refused) s.label("refused");
    if (evictions && refused) s.label("evicted and refused");
}

static void create(Src& s)
{
    double lim = s.flip() ? -s.mag(-300, 300) : s.mag(-300, 300);
    if (s.chance(0.2)) lim = s.flip() ? 0.0 : -0.0;
    s.note("limit", lim);
    if (lim != 0) s.nontrivial();
    check((bool)Cache<int, double>::Create(lim) == (lim > 0), lim > 0 ? "no cache for the limit " : "a cache for the limit ", lim);
}

Property pbt::property()
{
    Property p;
    p.id = "C12";
    p.facets = {{"int keys", 10, history<int, double>}, {"colliding keys", 10, history<BadKey, std::vector<int>>},
                {"vector keys", 10, history<std::vector<bool>, double>}, {"create", 1, create}};
    p.quick_cases = 300000;
    p.thorough_cases = 12000000;
    p.batch = 1000;
    p.rule = "Histories of up to 60 store / store-many / query / fetch operations over 1..14 keys of three kinds (one with colliding hashes) and limits of 0..9 entries or none, against a map with usage counts; "
             "after every step every key is queried. Non-trivial: something was fetched and at least two entries are left.";
    p.assumptions = {"an entry is accounted as the size of the key plus the size of the map's node value, as the code does"};
    return p;
}
