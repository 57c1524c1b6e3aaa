// C29: the registry hands out the object registered under a type.
#include "pbt.h"
#include <map>
#include <memory>
#include <k52/parallel/mpi/identifyable_objects_manager.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/params/double_parameter.h>
using namespace pbt;
using k52::common::ICloneable;
using k52::parallel::mpi::IdentifyableObjectsManager;

// Types of several shapes: plain ones, templates, nested ones, derived ones, ones of the
// same name in other namespaces, those of the library.
static int g_fail_clone = 0;
struct Valued : public ICloneable
{
    std::string value;
    virtual int type() const = 0;
protected:
    static void MayFail() { if (g_fail_clone) throw std::runtime_error("clone"); }
};
#define TYPE(NAME, BASE, N) \
    class NAME : public BASE { public: NAME() {} \
        virtual NAME* Clone() const { MayFail(); NAME* c = new NAME(); c->value = value; return c; } \
        virtual int type() const { return N; } };
TYPE(Plain, Valued, 0)
TYPE(Derived, Plain, 1)
TYPE(DerivedAgain, Derived, 2)
namespace one { TYPE(Same, Valued, 3) }
namespace two { TYPE(Same, Valued, 4) namespace one { TYPE(Same, Valued, 5) } }
template<int N> TYPE(Numbered, Valued, 100 + N)
template<class T> TYPE(Of, Valued, 6)
template<> TYPE(Of<double>, Valued, 7)
struct Outer { TYPE(Plain, Valued, 8) };
class Several : public Plain, public std::vector<int> { public:
    virtual Several* Clone() const { MayFail(); Several* c = new Several(); c->value = value; return c; }
    virtual int type() const { return 9; } };

// long names, which differ at one place only
template<class A, class B, class C> TYPE(OfThree, Valued, 9)
struct Pad_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789 {};
typedef Pad_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789 Pad;
template<class T> struct Wrap_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789 {};
template<class T> struct W3 { typedef Wrap_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789<Wrap_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789<
    Wrap_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789<T>>> type; };
TYPE(Long_0123456789_0123456789_0123456789_A, Valued, 10)
TYPE(Long_0123456789_0123456789_0123456789_B, Valued, 11)
TYPE(A_Long_0123456789_0123456789_0123456789, Valued, 12)
TYPE(B_Long_0123456789_0123456789_0123456789, Valued, 13)
static const int kTypes = 26;
static std::shared_ptr<Valued> make(int k)
{
    switch (k)
    {
    case 0: return std::make_shared<Plain>();
    case 1: return std::make_shared<Derived>();
    case 2: return std::make_shared<DerivedAgain>();
    case 3: return std::make_shared<one::Same>();
    case 4: return std::make_shared<two::Same>();
    case 5: return std::make_shared<two::one::Same>();
    case 6: return std::make_shared<Of<int>>();
    case 7: return std::make_shared<Of<double>>();
    case 8: return std::make_shared<Outer::Plain>();
    case 9: return std::make_shared<Several>();
    case 10: return std::make_shared<Numbered<1>>();
    case 11: return std::make_shared<Numbered<11>>();
    case 12: return std::make_shared<Numbered<2>>();
    case 13: return std::make_shared<Numbered<12>>();
    case 14: return std::make_shared<Numbered<111>>();
    case 15: return std::make_shared<Numbered<21>>();
    case 16: return std::make_shared<Long_0123456789_0123456789_0123456789_A>();
    case 17: return std::make_shared<Long_0123456789_0123456789_0123456789_B>();
    case 18: return std::make_shared<A_Long_0123456789_0123456789_0123456789>();
    case 19: return std::make_shared<B_Long_0123456789_0123456789_0123456789>();
    case 20: return std::make_shared<OfThree<Pad, Wrap_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789<int>, char>>();
    case 21: return std::make_shared<OfThree<Pad, Wrap_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789<int>, short>>();
    case 22: return std::make_shared<OfThree<W3<W3<int>::type>::type, Pad, char>>();
    case 23: return std::make_shared<OfThree<W3<W3<int>::type>::type, Pad, short>>();
    case 24: return std::make_shared<OfThree<W3<W3<char>::type>::type, Pad, char>>();
    default: return std::make_shared<OfThree<int, Pad, Pad>>();
    }
}

static std::string gen_value(Src& s)
{
    std::string r;
    for (int i = s.size(0, 12); i > 0; i--) r += (char)s.range('a', 'z');
    return r;
}

static void history(Src& s)
{
    IdentifyableObjectsManager& m = IdentifyableObjectsManager::Instance();
    check(&m == &IdentifyableObjectsManager::Instance(), "two registries");
    std::vector<std::shared_ptr<Valued>> objects;
    std::map<int, std::string> model;               // type -> registered value
    std::vector<std::string> ids(kTypes);
    int subset = s.chance(0.5) ? s.range(2, 5) : s.range(2, kTypes);
    int offset = s.range(0, kTypes - 1);
    auto lookup = [&](int k)
    {
        std::string id = IdentifyableObjectsManager::GetId(*make(k));
        if (ids[k].empty()) ids[k] = id;
        check(id == ids[k], "the identifier of a type changed from ", ids[k], " to ", id);
        if (!model.count(k))
        {
            for (int i = 0; i < 2; i++) must_throw<std::invalid_argument>("an identifier nobody registered", [&] { m.GetObject(id); });
            return;
        }
        const ICloneable* p = m.GetObject(id);
        check(p != nullptr, "no object");
        check(typeid(*p) == typeid(*make(k)), "the object under ", id, " is a ", std::string(typeid(*p).name()));
        const Valued* v = dynamic_cast<const Valued*>(p);
        check(v->value == model[k], "the object under ", id, " has value ", v->value, " instead of ", model[k]);
        for (auto& o : objects) check(o.get() != v, "the registry shares the object with its owner");
    };
    int n = s.size(1, 40);
    size_t looked = 0;
    for (int q = 0; q < n; q++)
    {
        int k = (offset + s.range(0, subset - 1)) % kTypes;
        switch (s.weighted({4, 4, 3, 2, 1, 1, 1}))
        {
        case 0:
            {
                std::shared_ptr<Valued> o = make(k);
                o->value = gen_value(s);
                m.RegisterObject(*o);
                model[k] = o->value;
                if (s.flip()) objects.push_back(o);
                if (s.noting()) s.note() << "register " << typeid(*o).name() << " " << o->value << "\n";
                s.label("registered");
                break;
            }
        case 1: lookup(k); looked++; if (s.noting()) s.note() << "look up type " << k << "\n"; s.label(model.count(k) ? "found" : "not found"); break;
        case 2: // later changes of the original
            if (!objects.empty()) { size_t i = s.index(objects.size()); objects[i]->value = gen_value(s); s.label("original changed"); }
            break;
        case 3: // registered again
            if (!objects.empty())
            {
                size_t i = s.index(objects.size());
                m.RegisterObject(*objects[i]);
                for (int t = 0; t < kTypes; t++) if (typeid(*make(t)) == typeid(*objects[i])) model[t] = objects[i]->value;
                s.label("registered again");
            }
            break;
        case 4: // something else that is no identifier
            {
                std::string id = s.chance(0.3) ? "" : gen_value(s) + "!";
                if (s.flip()) id = IdentifyableObjectsManager::GetId(*make(k)) + (s.flip() ? "x" : " ");
                must_throw<std::invalid_argument>("no identifier", [&] { m.GetObject(id); });
                break;
            }
        case 5:
            {
                std::shared_ptr<Valued> o = make(k);
                o->value = "not registered";
                g_fail_clone = 1;
                bool threw = false;
                try { m.RegisterObject(*o); } catch (const std::runtime_error&) { threw = true; }
                g_fail_clone = 0;
                check(threw, "an exception of Clone was lost");
                s.label("failed clone");
                break;
            }
        default: objects.clear();
        }
    }
    for (int k = 0; k < kTypes; k++) lookup(k);
    for (int a = 0; a < kTypes; a++) for (int b = 0; b < a; b++) check(ids[a] != ids[b], "two types have the identifier ", ids[a]);
    // objects of the library itself, with values
    k52::optimization::IntParameter x(s.range(0, 10), 0, 10), y(s.range(20, 30), 20, 30);
    check(IdentifyableObjectsManager::GetId(x) == IdentifyableObjectsManager::GetId(y), "the identifier depends on the value");
    m.RegisterObject(x);
    m.RegisterObject(y);
    const k52::optimization::IntParameter* z = dynamic_cast<const k52::optimization::IntParameter*>(m.GetObject(IdentifyableObjectsManager::GetId(x)));
    check(z && z->get_value() == y.get_value() && z->get_min_value() == 20 && z->get_max_value() == 30, "not the parameter registered last");
    k52::optimization::DoubleParameter d(1, 0, 10, 1);
    check(IdentifyableObjectsManager::GetId(d) != IdentifyableObjectsManager::GetId(x), "two types have one identifier");
    must_throw<std::invalid_argument>("a double parameter nobody registered", [&] { m.GetObject(IdentifyableObjectsManager::GetId(d)); });
    if (model.size() >= 2 && looked) s.nontrivial();
}

Property pbt::property()
{
    Property p = {"C29",
        {{"history", 1, history}},
        2500, 120000,
        "Histories of up to 40 registrations (of 26 types: derived ones, templates, ones with long names, ones of one name in other namespaces), repeated registrations, changes and "
        "destruction of originals, failing clones and look-ups, in a process of its own, against a map from type to value; in the end all types are looked up. "
        "Non-trivial: at least two types registered and something looked up on the way.",
        {"Types have external linkage (C++ gives types of anonymous namespaces of two files one name)."}};
    p.batch = 1;
    return p;
}
