// C17: discrete parameters survive the way through their chromosome.
#include "params.h"
using namespace pbt;
using namespace par;

static ChromosomeType random_bits(Src& s, size_t n)
{
    ChromosomeType c(n);
    int k = s.range(0, 3);
    for (size_t i = 0; i < n; i++) c[i] = k == 0 ? false : k == 1 ? true : s.flip();
    return c;
}

// writing touches exactly the given range
static ChromosomeType write_guarded(Src& s, const IDiscreteParameters* p)
{
    size_t n = p->GetChromosomeSize(), before = s.index(9), after = s.index(9);
    bool fill = s.flip();
    ChromosomeType big(before + n + after, fill);
    p->SetChromosome(big.begin() + (long)before, big.begin() + (long)(before + n));
    for (size_t i = 0; i < big.size(); i++)
        if (i < before || i >= before + n) check(big[i] == fill, "a bit outside the range was written");
    // and reads exactly the given range: any surroundings do
    return ChromosomeType(big.begin() + (long)before, big.begin() + (long)(before + n));
}

static void read_guarded(Src& s, IDiscreteParameters* p, const ChromosomeType& c)
{
    size_t before = s.index(9), after = s.index(9);
    ChromosomeType big;
    for (size_t i = 0; i < before; i++) big.push_back(s.flip());
    big.insert(big.end(), c.begin(), c.end());
    for (size_t i = 0; i < after; i++) big.push_back(s.flip());
    const ChromosomeType& cb = big;
    p->SetFromChromosome(cb.begin() + (long)before, cb.begin() + (long)(before + c.size()));
}

static void wrong_size(Src& s, IDiscreteParameters* p)
{
    size_t n = p->GetChromosomeSize(), m;
    if (n && s.flip()) m = s.index(n);
    else m = n + 1 + s.index(5);
    ChromosomeType c = random_bits(s, m), c0 = c;
    std::vector<double> v = values(p);
    const ChromosomeType& cc = c;
    must_throw<std::invalid_argument>("reading a chromosome of another size", [&] { p->SetFromChromosome(cc.begin(), cc.end()); });
    check(values(p) == v, "a rejected chromosome changed the values");
    must_throw<std::invalid_argument>("writing a chromosome of another size", [&] { p->SetChromosome(c.begin(), c.end()); });
    check(c == c0, "a rejected write changed the chromosome");
    check(p->GetChromosomeSize() == n, "the announced size changed");
}

static void integers(Src& s)
{
    Desc d;
    do { d = gen(s, 0); } while (d.kind != Desc::Int && s.draw(3));
    if (d.kind != Desc::Int) { d = Desc(); d.imax = 4; d.ival = 4; }
    s.note("parameter", text(d));
    IntParameter p(d.ival, d.imin, d.imax), q(d.imin, d.imax);
    check(p.get_value() == d.ival && p.get_min_value() == d.imin && p.get_max_value() == d.imax, "not as constructed");
    check(q.get_value() == d.imin, "the value does not start at the minimum");
    long long span = (long long)d.imax - d.imin;
    if (span >= 2) s.nontrivial();
    if (span > 2147483647LL) s.label("more values than the largest int");
    if (!(span & (span - 1))) s.label("span is a power of two");
    if (!(span & (span + 1))) s.label("span fills its bits");
    size_t n = p.GetChromosomeSize();
    check(n == q.GetChromosomeSize(), "the size depends on the value");
    std::vector<int> vs;
    if (span <= 64) for (long long i = 0; i <= span; i++) vs.push_back((int)(d.imin + i));
    else
    {
        vs = {d.imin, d.imax, d.imin + 1, d.imax - 1, d.ival};
        for (int i = 0; i < 6; i++) vs.push_back((int)(d.imin + s.range64(0, span)));
    }
    std::vector<ChromosomeType> seen;
    for (int v : vs)
    {
        p.set_value(v);
        ChromosomeType c = write_guarded(s, &p);
        q.set_value(v == d.imin ? d.imax : d.imin);
        read_guarded(s, &q, c);
        check(q.get_value() == v, v, " comes back as ", q.get_value(), " from ", bits(c));
        if (span <= 64)
        {
            for (auto& o : seen) check(o != c, "two values have the chromosome ", bits(c));
            seen.push_back(c);
        }
    }
    // any bits
    for (int i = 0; i < 4; i++)
    {
        ChromosomeType c = random_bits(s, n);
        q.SetFromChromosome(c.begin(), c.end());
        ChromosomeType e = chromosome(&q);
        check(e == c, bits(c), " is read as ", q.get_value(), ", which is written as ", bits(e));
    }
    wrong_size(s, &p);
}

static void grid(const char* what, double got, double want, double lo, double hi, double prec)
{
    double slack = 4e-16 * (std::fabs(lo) + std::fabs(hi));
    check(std::fabs(got - want) <= prec / 2 * (1 + 1e-9) + slack, what, ": ", want, " became ", got, ", precision ", prec);
    double k = std::round((got - lo) / prec);
    check(std::fabs(lo + k * prec - got) <= slack + prec * 1e-6 * 0 + 4e-16 * k * prec, what, ": ", got, " is no multiple of ", prec, " above ", lo);
    check(got >= lo && got <= hi, what, ": ", got, " is not in the range");
}

static void doubles(Src& s)
{
    Desc d;
    d.kind = Desc::Double;
    gen_bounds(s, d, 30);
    d.dval = gen_in(s, d.dmin, d.dmax);
    s.note("parameter", text(d));
    DoubleParameter p(d.dval, d.dmin, d.dmax, d.dprec), q(d.dmin, d.dmin, d.dmax, d.dprec);
    double prec = p.get_actual_precision();
    if ((d.dmax - d.dmin) / d.dprec > 2) s.nontrivial();
    check(p.get_min_value() == d.dmin && p.get_max_value() == d.dmax, "not as constructed");
    check(prec > 0 && prec <= d.dprec * (1 + 1e-15), "the actual precision ", prec, " is coarser than ", d.dprec);
    grid("constructed with", p.GetValue(), d.dval, d.dmin, d.dmax, prec);
    std::vector<double> vs = {d.dmin, d.dmax, d.dval, d.dmin + prec, d.dmax - prec, d.dmin + 2 * prec};
    for (int i = 0; i < 5; i++) vs.push_back(gen_in(s, d.dmin, d.dmax));
    size_t n = p.GetChromosomeSize();
    for (double v : vs)
    {
        if (!(v >= d.dmin && v <= d.dmax)) continue;
        p.SetValue(v);
        double g = p.GetValue();
        grid("set", g, v, d.dmin, d.dmax, prec);
        ChromosomeType c = write_guarded(s, &p);
        q.SetValue(v == d.dmin ? d.dmax : d.dmin);
        read_guarded(s, &q, c);
        check(q.GetValue() == g, g, " comes back as ", q.GetValue(), " from ", bits(c));
    }
    check(p.GetChromosomeSize() == n, "the size changed");
    for (int i = 0; i < 4; i++)
    {
        ChromosomeType c = random_bits(s, n);
        q.SetFromChromosome(c.begin(), c.end());
        ChromosomeType e = chromosome(&q);
        check(e == c, bits(c), " is read as ", q.GetValue(), ", which is written as ", bits(e));
        // by value
        if (!q.CheckConstraints()) continue;
        p.SetValue(q.GetValue());
        check(chromosome(&p) == c, bits(c), " is read as ", q.GetValue(), ", but that value is written as ", bits(chromosome(&p)));
    }
    wrong_size(s, &p);
}

static void arrays(Src& s)
{
    Desc d;
    d.kind = Desc::Array;
    gen_bounds(s, d, 30);
    int k = s.chance(0.02) ? s.range(11, 80) : s.size(0, 10);
    for (int i = 0; i < k; i++) d.vals.push_back(gen_in(s, d.dmin, d.dmax));
    s.note("parameter", text(d));
    IDiscreteParameters::shared_ptr m = make(d), other = make(d);
    DoubleParametersArray& a = dynamic_cast<DoubleParametersArray&>(*m);
    DoubleParametersArray& b = dynamic_cast<DoubleParametersArray&>(*other);
    if (k >= 2) s.nontrivial();
    check(a.get_values() == d.vals, "the values are not those set");
    check(a.get_number_of_parameters() == (size_t)k && a.get_min_value() == d.dmin && a.get_max_value() == d.dmax, "not as constructed");
    double prec = a.get_actual_precision();
    check(prec > 0 && prec <= d.dprec * (1 + 1e-15), "the actual precision ", prec, " is coarser than ", d.dprec);
    b.SetValues(std::vector<double>((size_t)k, s.flip() ? d.dmin : d.dmax));
    ChromosomeType c = write_guarded(s, &a);
    check(a.get_values() == d.vals, "writing changed the values");
    read_guarded(s, &b, c);
    std::vector<double> v = b.get_values();
    check(v.size() == (size_t)k, "the number of values changed");
    for (int i = 0; i < k; i++) grid("read back", v[(size_t)i], d.vals[(size_t)i], d.dmin, d.dmax, prec);
    // once on the grid, it stays
    for (int i = 0; i < 4; i++)
    {
        ChromosomeType r = random_bits(s, a.GetChromosomeSize());
        a.SetFromChromosome(r.begin(), r.end());
        check(chromosome(&a) == r, bits(r), " is read as ", show(a.get_values()), ", which is written as ", bits(chromosome(&a)));
        if (a.CheckConstraints())
        {
            b.SetValues(a.get_values());
            check(chromosome(&b) == r, bits(r), " is read as ", show(a.get_values()), ", but set, these are written as ", bits(chromosome(&b)));
        }
    }
    // equal values look alike at every position, so one value's bits do not depend on its neighbours
    if (k >= 2)
    {
        size_t i = s.index((size_t)k), j = s.index((size_t)k);
        b.SetValues(d.vals);
        std::vector<double> w = d.vals;
        w[i] = gen_in(s, d.dmin, d.dmax);
        b.SetValues(w);
        ChromosomeType before = c, now = chromosome(&b);
        size_t per = c.size() / (size_t)k;
        for (size_t q = 0; q < c.size(); q++)
            if (q / per != i) check(before[q] == now[q], "changing value ", i, " changed a bit of value ", per ? q / per : 0);
        (void)j;
    }
    wrong_size(s, m.get());
}

static void composites(Src& s)
{
    Desc d;
    d.kind = Desc::Composite;
    int n = s.size(0, 5);
    d.sample = s.chance(0.3);
    for (int i = 0; i < n; i++) d.kids.push_back(d.sample && i ? d.kids[0] : gen(s, 2));
    s.note("parameter", text(d));
    IDiscreteParameters::shared_ptr a = make(d), b = make(d);
    const CompositeDiscreteParameters& ca = dynamic_cast<CompositeDiscreteParameters&>(*a);
    check(ca.GetNumberOfParameters() == (size_t)n, "another number of parts");
    size_t total = 0;
    ChromosomeType parts;
    for (int i = 0; i < n; i++)
    {
        IDiscreteParameters::shared_ptr k = make(d.kids[(size_t)i]);
        total += k->GetChromosomeSize();
        ChromosomeType c = chromosome(k.get());
        parts.insert(parts.end(), c.begin(), c.end());
    }
    check(a->GetChromosomeSize() == total, "announces ", a->GetChromosomeSize(), " bits, its parts ", total);
    if (n >= 2 && total >= 2) s.nontrivial();
    ChromosomeType c = write_guarded(s, a.get());
    check(c == parts, "the chromosome ", bits(c), " is not that of the parts in order, ", bits(parts));
    ChromosomeType r = random_bits(s, total);
    b->SetFromChromosome(r.begin(), r.end());
    check(chromosome(b.get()) == r, bits(r), " is read and written as ", bits(chromosome(b.get())));
    read_guarded(s, b.get(), c);
    check(chromosome(b.get()) == c, "read back, the chromosome is ", bits(chromosome(b.get())), " instead of ", bits(c));
    // read back twice gives the same values
    std::vector<double> v = values(b.get());
    a->SetFromChromosome(c.begin(), c.end());
    check(values(a.get()) == v, "the values read differ between two equal objects");
    std::vector<Leaf> l;
    leaves(b.get(), l);
    for (auto& e : l) check(e.v >= e.lo && e.v <= e.hi, "the value ", e.v, " read back is out of range");
    wrong_size(s, b.get());
}

// the bits of parameters are those written last, into them or into a part of them
static void histories(Src& s)
{
    Desc d;
    d.kind = Desc::Composite;
    for (int i = s.size(1, 4); i > 0; i--) d.kids.push_back(gen(s, 2));
    s.note("parameter", text(d));
    IDiscreteParameters::shared_ptr a = make(d), fresh = make(d);
    ChromosomeType model = chromosome(a.get());
    {
        // values given may lie between those the bits can express
        const ChromosomeType& m = model;
        a->SetFromChromosome(m.begin(), m.end());
    }
    std::vector<ChromosomeType> pool(1, model);
    for (int i = s.range(1, 2); i > 0; i--) pool.push_back(random_bits(s, model.size()));
    bool part = false;
    for (int i = s.range(2, 12); i > 0; i--)
    {
        const ChromosomeType& c = pool[s.index(pool.size())];
        std::string did;
        switch (s.range(0, 5))
        {
        case 0:
        case 1:
            a->SetFromChromosome(c.begin(), c.end());
            model = c;
            did = "reading " + bits(c);
            break;
        case 2:
        case 3:
            {
                IDiscreteParameters::shared_ptr k = a;
                size_t at = 0;
                while (CompositeDiscreteParameters* p = dynamic_cast<CompositeDiscreteParameters*>(k.get()))
                {
                    if (p->GetNumberOfParameters() == 0 || (k != a && s.chance(0.3))) break;
                    size_t which = s.index(p->GetNumberOfParameters());
                    for (size_t j = 0; j < which; j++) at += p->GetParameter(j)->GetChromosomeSize();
                    k = p->GetParameter(which);
                }
                size_t n = k->GetChromosomeSize();
                ChromosomeType part_bits;
                IntParameter* whole = dynamic_cast<IntParameter*>(k.get());
                if (whole && s.flip())
                {
                    int v = (int)s.range64(whole->get_min_value(), whole->get_max_value());
                    whole->set_value(v);
                    part_bits = chromosome(IDiscreteParameters::shared_ptr(new IntParameter(v, whole->get_min_value(), whole->get_max_value())).get());
                    did = "setting a part to " + std::to_string(v);
                }
                else
                {
                    part_bits.assign(c.begin() + (long)at, c.begin() + (long)(at + n));
                    const ChromosomeType& pc = part_bits;
                    k->SetFromChromosome(pc.begin(), pc.end());
                    did = "reading " + bits(part_bits) + " into a part";
                }
                std::copy(part_bits.begin(), part_bits.end(), model.begin() + (long)at);
                part = true;
                break;
            }
        case 4:
            a = IDiscreteParameters::shared_ptr(a->Clone());
            did = "cloning";
            break;
        default:
            write_guarded(s, a.get());
            did = "writing";
        }
        if (s.noting()) s.note() << did << "\n";
        check(chromosome(a.get()) == model, "after ", did, " the chromosome is ", bits(chromosome(a.get())), " instead of ", bits(model));
        const ChromosomeType& m = model;
        fresh->SetFromChromosome(m.begin(), m.end());
        check(values(a.get()) == values(fresh.get()), "after ", did, " the values are ", values(a.get()), ", the same bits read into another object give ", values(fresh.get()));
    }
    if (part) s.nontrivial();
}

Property pbt::property()
{
    Property p;
    p.id = "C17";
    p.facets = {{"integers", 3, integers}, {"doubles", 3, doubles}, {"arrays", 3, arrays}, {"composites", 3, composites}, {"histories", 2, histories}};
    p.quick_cases = 250000;
    p.thorough_cases = 10000000;
    p.batch = 1000;
    p.rule = "Integer ranges of up to 2^32 values (all of int) concentrated around powers of two, anywhere in the int range; double ranges of different magnitude with precisions giving up to 2^31 steps (dividing the range exactly or not); "
             "arrays of 0..10; composites nested to depth 3. Values at, next to and between the bounds are written into a guarded range and read back; random bits are read and written back; wrong sizes; histories in which a composite and its parts are read, set, written and cloned in turn. "
             "Non-trivial: more than two values (integers, doubles), at least two components, or a part changed by itself.";
    p.assumptions = {"min + 2^bits - 1 fits an int", "grid positions are compared up to rounding"};
    return p;
}
