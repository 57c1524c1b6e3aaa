// C18: parameters enforce their constraints and clones are independent.
#include "params.h"
#include <k52/optimization/params/continuous_parameters_array.h>
using namespace pbt;
using namespace par;

static void constraints(Src& s)
{
    Desc d;
    do { d = gen(s, 0); } while (d.kind == Desc::Array && s.draw(2));
    s.note("parameter", text(d));
    IDiscreteParameters::shared_ptr p = make(d);
    check(p->CheckConstraints(), "the valid value it was made with is invalid");
    if (IntParameter* i = dynamic_cast<IntParameter*>(p.get()))
    {
        s.label("int");
        for (int q = 0; q < 8; q++)
        {
            long long v;
            switch (s.range(0, 4))
            {
            case 0: v = (long long)d.imin - s.range(0, 2); break;
            case 1: v = (long long)d.imax + s.range(0, 2); break;
            case 2: v = s.range64(d.imin, d.imax); break;
            case 3: v = s.range64(-2147483648LL, 2147483647LL); break;
            default: v = -(long long)d.imax;
            }
            v = std::max(-2147483648LL, std::min(2147483647LL, v));
            if (v < d.imin || v > d.imax) s.nontrivial();
            i->set_value((int)v);
            check(i->get_value() == v, "set ", v, ", got ", i->get_value());
            check(i->CheckConstraints() == (v >= d.imin && v <= d.imax), "the value ", v, " is said to be ", i->CheckConstraints() ? "valid" : "invalid");
        }
    }
    else if (DoubleParameter* f = dynamic_cast<DoubleParameter*>(p.get()))
    {
        s.label("double");
        double w = d.dmax - d.dmin, prec = f->get_actual_precision();
        for (int q = 0; q < 8; q++)
        {
            double v;
            switch (s.range(0, 4))
            {
            case 0: v = d.dmin - prec * s.real(0, 3); break;
            case 1: v = d.dmax + prec * s.real(0, 3); break;
            case 2: v = gen_in(s, d.dmin, d.dmax); break;
            case 3: v = d.dmin + w * s.real(-1, 2); break;
            default: v = d.dmax;
            }
            // far away the whole number of steps is no int any more
            if (std::fabs(v - d.dmin) / prec > 2e9) continue;
            f->SetValue(v);
            double g = f->GetValue();
            check(f->CheckConstraints() == (g >= d.dmin && g <= d.dmax), "the value ", g, " (set ", v, ") is said to be ", f->CheckConstraints() ? "valid" : "invalid");
            if (v >= d.dmin && v <= d.dmax) check(f->CheckConstraints(), "a value in range, ", v, ", makes it invalid: ", g);
            if (v < d.dmin - 0.6 * prec || v > d.dmax + 0.6 * prec) { s.nontrivial(); check(!f->CheckConstraints(), "a value out of range, ", v, ", makes it ", g); }
        }
    }
    else
    {
        s.label("array");
        DoubleParametersArray& a = dynamic_cast<DoubleParametersArray&>(*p);
        for (int q = 0; q < 5; q++)
        {
            std::vector<double> before = a.get_values(), v;
            size_t n = s.chance(0.2) ? (size_t)s.range(0, 8) : before.size();
            bool bad = n != before.size();
            for (size_t i = 0; i < n; i++)
            {
                double e = gen_in(s, d.dmin, d.dmax);
                if (s.chance(0.15))
                    switch (s.range(0, 6))
                    {
                    case 0: e = std::nextafter(d.dmin, -1e300); break;
                    case 1: e = std::nextafter(d.dmax, 1e300); break;
                    case 2: e = d.dmin - a.get_actual_precision() * s.real(0.01, 2); break;
                    case 3: e = d.dmax + a.get_actual_precision() * s.real(0.01, 2); break;
                    case 4: e = s.flip() ? INFINITY : -INFINITY; break;
                    case 5: e = NAN; break;
                    default: e = s.mag(-10, 300);
                    }
                bad = bad || !(e >= d.dmin && e <= d.dmax);
                v.push_back(e);
            }
            if (s.noting()) s.note() << "set " << show(v) << "\n";
            if (bad)
            {
                s.nontrivial();
                must_throw<std::invalid_argument>("values out of range or of another number", [&] { a.SetValues(v); });
                check(a.get_values() == before, "rejected values were kept: ", a.get_values(), " instead of ", before);
                check(a.CheckConstraints(), "invalid after rejected values");
            }
            else
            {
                a.SetValues(v);
                check(a.get_values() == v, "set ", v, ", got ", a.get_values());
                check(a.CheckConstraints(), "invalid after values in range");
            }
        }
    }
}

static void constructing(Src& s)
{
    s.nontrivial();
    Desc d;
    gen_bounds(s, d, 20);
    double v = gen_in(s, d.dmin, d.dmax), lo = d.dmin, hi = d.dmax, pr = d.dprec;
    switch (s.range(0, 5))
    {
    case 0: hi = lo; v = lo; break;
    case 1: std::swap(lo, hi); break;
    case 2: pr = s.flip() ? 0.0 : -pr; break;
    case 3: v = std::nextafter(lo, -1e300); break;
    case 4: v = std::nextafter(hi, 1e300); break;
    default: v = s.flip() ? lo - s.real(0.01, 100) : hi + s.real(0.01, 100);
    }
    s.note("value", v); s.note("min", lo); s.note("max", hi); s.note("precision", pr);
    must_throw<std::invalid_argument>("double parameter", [&] { DoubleParameter p(v, lo, hi, pr); });
    if (lo >= hi || pr <= 0)
        must_throw<std::invalid_argument>("array", [&] { DoubleParametersArray p(lo, hi, pr, (size_t)s.range(0, 4)); });
}

// something valid, other than what it is
static void change(Src& s, IDiscreteParameters* p)
{
    if (IntParameter* i = dynamic_cast<IntParameter*>(p)) i->set_value((int)s.range64(i->get_min_value(), i->get_max_value()));
    else if (DoubleParameter* d = dynamic_cast<DoubleParameter*>(p)) d->SetValue(gen_in(s, d->get_min_value(), d->get_max_value()));
    else if (DoubleParametersArray* a = dynamic_cast<DoubleParametersArray*>(p))
    {
        std::vector<double> v = a->get_values();
        for (auto& e : v) if (s.flip()) e = gen_in(s, a->get_min_value(), a->get_max_value());
        a->SetValues(v);
    }
    else if (CompositeDiscreteParameters* c = dynamic_cast<CompositeDiscreteParameters*>(p))
        for (size_t k = 0; k < c->GetNumberOfParameters(); k++)
        {
            if (!s.flip()) continue;
            std::vector<std::vector<double>> others;
            for (size_t j = 0; j < c->GetNumberOfParameters(); j++) others.push_back(values(c->GetParameter(j).get()));
            change(s, c->GetParameter(k).get());
            for (size_t j = 0; j < others.size(); j++)
                if (j != k) check(values(c->GetParameter(j).get()) == others[j], "part ", j, " of a composite has become ", values(c->GetParameter(j).get()), " by a change of part ", k);
        }
}

static void clones(Src& s)
{
    Desc d = gen(s, 2, 20);
    s.note("parameter", text(d));
    struct Obj { IDiscreteParameters::shared_ptr p; std::vector<double> v; };
    std::vector<Obj> o;
    o.push_back({make(d), {}});
    o[0].v = values(o[0].p.get());
    size_t size = o[0].p->GetChromosomeSize();
    std::vector<Leaf> l0;
    leaves(o[0].p.get(), l0);
    int ops = s.size(1, 20), cl = 0, ch = 0;
    for (int op = 0; op < ops; op++)
    {
        size_t k = s.index(o.size());
        switch (s.range(0, 4))
        {
        case 0:
        case 1:
            if (s.noting()) s.note() << "clone " << k << "\n";
            if (o.size() < 6)
            {
                IDiscreteParameters::shared_ptr c(o[k].p->Clone());
                check(c.get() != o[k].p.get(), "the clone is its original");
                o.push_back({c, o[k].v});
                cl++;
            }
            break;
        case 2:
            if (s.noting()) s.note() << "change " << k << "\n";
            change(s, o[k].p.get());
            o[k].v = values(o[k].p.get());
            ch++;
            break;
        case 3:
            {
                if (s.noting()) s.note() << "read bits into " << k << "\n";
                ChromosomeType c(size);
                for (size_t i = 0; i < size; i++) c[i] = s.flip();
                std::vector<double> v0 = o[k].v;
                o[k].p->SetFromChromosome(c.begin(), c.end());
                o[k].v = values(o[k].p.get());
                ch++;
                break;
            }
        default:
            if (o.size() > 1)
            {
                if (s.noting()) s.note() << "destroy " << k << "\n";
                o.erase(o.begin() + (long)k);
            }
        }
        for (size_t i = 0; i < o.size(); i++)
        {
            check(values(o[i].p.get()) == o[i].v, "object ", i, " has the values ", values(o[i].p.get()), " instead of ", o[i].v, " after step ", op);
            check(o[i].p->GetChromosomeSize() == size, "object ", i, " has another chromosome size");
            check(o[i].p->CheckConstraints() == in_range(o[i].p.get()), "object ", i, " is said to be ", o[i].p->CheckConstraints() ? "valid" : "invalid", " with ", o[i].v);
            std::vector<Leaf> l;
            leaves(o[i].p.get(), l);
            check(l.size() == l0.size(), "object ", i, " has another number of values");
            for (size_t q = 0; q < l.size(); q++) check(l[q].lo == l0[q].lo && l[q].hi == l0[q].hi, "object ", i, " has other bounds");
            // the description
            if (d.kind != Desc::Composite) check(o[i].p->HasSameMetaParameters(o[0].p.get()), "object ", i, " has other meta-parameters");
        }
    }
    if (cl && ch) s.nontrivial();
}

static void meta(Src& s)
{
    Desc a = gen(s, 0, 12), b = a;
    int what = s.range(0, 6);
    if (what == 0) b = gen(s, 0, 12);
    if (what == 1)
    {
        if (b.kind == Desc::Int) { if (b.imin > -2147483647) b.imin--; }
        else { b.dmin -= (b.dmax - b.dmin) * (s.flip() ? 0.25 : 1e-9); }
    }
    if (what == 2)
    {
        if (b.kind == Desc::Int) { if (b.imax < 2147483600) b.imax++; }
        else { b.dmax += (b.dmax - b.dmin) * (s.flip() ? 0.25 : 1e-9); }
    }
    if (what == 3) b.dprec /= 4.5;
    if (what == 4 && b.kind == Desc::Array) b.vals.push_back(b.dmin);
    if (what == 5)   // other values only
    {
        b.ival = b.imax;
        b.dval = b.dmax;
        for (auto& v : b.vals) v = b.dmin;
    }
    s.note("a", text(a)); s.note("b", text(b));
    // never fewer steps than fit an int
    IDiscreteParameters::shared_ptr p = make(a), q = make(b);
    if (a.kind != b.kind)
    {
        s.label("different kinds");
        must_throw<std::runtime_error>("comparing different kinds", [&] { p->HasSameMetaParameters(q.get()); });
        must_throw<std::runtime_error>("comparing different kinds", [&] { q->HasSameMetaParameters(p.get()); });
        return;
    }
    bool same;
    if (a.kind == Desc::Int) same = a.imin == b.imin && a.imax == b.imax;
    else
    {
        double pa, pb;
        if (a.kind == Desc::Double)
        {
            pa = dynamic_cast<DoubleParameter&>(*p).get_actual_precision();
            pb = dynamic_cast<DoubleParameter&>(*q).get_actual_precision();
        }
        else
        {
            pa = dynamic_cast<DoubleParametersArray&>(*p).get_actual_precision();
            pb = dynamic_cast<DoubleParametersArray&>(*q).get_actual_precision();
        }
        same = a.dmin == b.dmin && a.dmax == b.dmax && pa == pb && a.vals.size() == b.vals.size();
    }
    s.label(same ? "same" : "different");
    if (what) s.nontrivial();
    check(p->HasSameMetaParameters(q.get()) == same, "said to have ", same ? "different" : "the same", " meta-parameters");
    check(q->HasSameMetaParameters(p.get()) == same, "the other way round said to have ", same ? "different" : "the same", " meta-parameters");
}

static void composite_misuse(Src& s)
{
    s.nontrivial();
    CompositeDiscreteParameters c;
    ChromosomeType bits((size_t)s.range(0, 4));
    const ChromosomeType& cb = bits;
    if (s.flip())
    {
        must_throw<std::logic_error>("clone", [&] { delete c.Clone(); });
        must_throw<std::logic_error>("check", [&] { c.CheckConstraints(); });
        must_throw<std::logic_error>("write", [&] { c.SetChromosome(bits.begin(), bits.end()); });
        must_throw<std::logic_error>("read", [&] { c.SetFromChromosome(cb.begin(), cb.end()); });
        must_throw<std::logic_error>("number", [&] { c.GetNumberOfParameters(); });
        must_throw<std::logic_error>("part", [&] { c.GetParameter(0); });
        must_throw<std::logic_error>("size", [&] { c.GetChromosomeSize(); });
    }
    Desc d;
    d.kind = Desc::Composite;
    int n = s.range(0, 3);
    for (int i = 0; i < n; i++) d.kids.push_back(gen(s, 1, 12));
    s.note("parameter", text(d));
    std::vector<IDiscreteParameters::shared_ptr> v, w;
    for (auto& k : d.kids) v.push_back(make(k));
    c.Initialize(v);
    std::vector<double> val = values(&c);
    // the parts given stay the caller's
    for (auto& p : v) change(s, p.get());
    check(values(&c) == val, "changing the parts given changes the composite");
    size_t size = c.GetChromosomeSize();
    int m = s.range(0, 3);
    for (int i = 0; i < m; i++) w.push_back(make(gen(s, 0, 12)));
    if (s.flip()) must_throw<std::logic_error>("second initialisation", [&] { c.Initialize(w); });
    else
    {
        IDiscreteParameters::shared_ptr one = make(gen(s, 0, 12));
        must_throw<std::logic_error>("second initialisation", [&] { c.Initialize(one, (size_t)m); });
    }
    check(c.GetNumberOfParameters() == (size_t)n && values(&c) == val && c.GetChromosomeSize() == size, "a rejected second initialisation changed the composite");
    check(chromosome(&c).size() == size, "cannot be written after a rejected second initialisation");
    must_throw<std::out_of_range>("part beyond the end", [&] { c.GetParameter((size_t)n + s.index(3)); });
}

static void continuous(Src& s)
{
    std::vector<double> v;
    int n = s.size(0, 12);
    for (int i = 0; i < n; i++) v.push_back(s.mag(-300, 300));
    s.note("values", v);
    if (n) s.nontrivial();
    ContinuousParametersArray a(v), z((size_t)n);
    check(a.GetValues() == v, "not the values given");
    check(z.GetValues().size() == (size_t)n, "another number of values");
    boost::shared_ptr<ContinuousParametersArray> c(a.Clone());
    check(c->GetValues() == v, "the clone has other values");
    std::vector<double> w = v;
    for (auto& e : w) e += 1.5;
    a.SetValues(w);
    check(a.GetValues() == w && c->GetValues() == v, "changing the original affects the clone");
    c->SetValues(std::vector<double>((size_t)n, 3));
    check(a.GetValues() == w, "changing the clone affects the original");
    check(a.CheckConstraints(), "constraints of an unconstrained array do not hold");
    w.resize(n && s.flip() ? s.index((size_t)n) : (size_t)n + 1 + s.index(3));
    std::vector<double> before = a.GetValues();
    must_throw<std::invalid_argument>("another number of values", [&] { a.SetValues(w); });
    check(a.GetValues() == before, "rejected values were kept");
}

Property pbt::property()
{
    Property p;
    p.id = "C18";
    p.facets = {{"constraints", 6, constraints}, {"constructing", 1, constructing}, {"clones", 5, clones}, {"meta", 3, meta}, {"composite misuse", 2, composite_misuse}, {"continuous", 1, continuous}};
    p.quick_cases = 250000;
    p.thorough_cases = 10000000;
    p.batch = 1000;
    p.rule = "Generated parameters of all kinds; values inside, at, next to and outside of their bounds (and infinite and not-a-number for arrays); histories of cloning, changing, reading bits and destroying over up to 6 "
             "objects, all compared after each step; pairs of descriptions differing in one respect; misuse of composites. Non-trivial: an invalid value was tried, a clone and a change both happened, descriptions were varied.";
    return p;
}
