// C22: a saved population is loaded back exactly, a damaged one is refused.
#include "ga_util.h"
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace pbt;
using namespace ga;

namespace
{
// files of a case, removed at its end
struct Scratch
{
    std::string dir;
    std::vector<std::string> files;
    Scratch()
    {
        char t[] = "/tmp/verif_c22_XXXXXX";
        if (!mkdtemp(t)) { perror("mkdtemp"); _exit(70); }
        dir = t;
    }
    std::string name(const std::string& n) { files.push_back(dir + "/" + n); return files.back(); }
    ~Scratch() { for (auto& f : files) unlink(f.c_str()); rmdir(dir.c_str()); }
};

std::string slurp(const std::string& f)
{
    std::ifstream in(f, std::ios::binary);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}
void spit(const std::string& f, const std::string& text) { std::ofstream out(f, std::ios::binary); out << text; }

struct Line { std::string bits; double fitness; };
// the individuals of a file, as its format says: "Chromosome: <genes> Fitness: <value>"
std::vector<Line> parse(const std::string& text)
{
    std::istringstream in(text);
    std::vector<Line> r;
    std::string w;
    while (in >> w)
        if (w == "Chromosome:")
        {
            Line l;
            std::string f, v;
            if (!(in >> l.bits >> f >> v) || f != "Fitness:") break;
            l.fitness = strtod(v.c_str(), nullptr);
            r.push_back(l);
        }
    return r;
}

std::string text_of(const Config& c, const std::vector<Line>& lines, size_t genes)
{
    std::ostringstream o;
    o << "Population_size: \n" << lines.size() << "\nChromosome_size: \n" << genes << "\n";
    o.precision(17);
    for (auto& l : lines) o << "Chromosome:\t" << l.bits << "\tFitness:\t" << l.fitness << "\n";
    return o.str();
}

Point point_of(const Desc& d, const std::string& b)
{
    IDiscreteParameters::shared_ptr f = make(d);
    ChromosomeType c(b.size());
    for (size_t i = 0; i < b.size(); i++) c[i] = b[i] == '1';
    f->SetFromChromosome(c.begin(), c.end());
    return values(f.get());
}
bool valid(const Desc& d, const std::string& b)
{
    IDiscreteParameters::shared_ptr f = make(d);
    ChromosomeType c(b.size());
    for (size_t i = 0; i < b.size(); i++) c[i] = b[i] == '1';
    f->SetFromChromosome(c.begin(), c.end());
    return in_range(f.get());
}

// a first generation of a run with that file
Run load(Config c, const std::string& file, const Function& f, int generations)
{
    c.file = file;
    c.generations = generations;
    GeneticAlgorithm::shared_ptr g = create(c, c.make_mutator());
    IDiscreteParameters::shared_ptr p = make(c.d);
    Point before = values(p.get());
    Run r;
    optimize(*g, f, p.get(), r);
    if (!r.error.empty())
    {
        check(r.log->evals.empty(), r.log->evals.size(), " points were evaluated before the file was refused");
        check(values(p.get()) == before, "refusing the file changed the parameters");
    }
    return r;
}

void expect_loaded(const Config& c, const Run& r, const std::vector<Line>& lines)
{
    check(r.error.empty(), "a population that was written is refused: ", r.error);
    std::vector<Point> want;
    std::vector<double> fit, got;
    for (auto& l : lines) { want.push_back(point_of(c.d, l.bits)); fit.push_back(l.fitness); }
    std::sort(want.begin(), want.end());
    std::vector<Point> first = points(std::vector<Eval>(r.log->evals.begin(), r.log->evals.begin() + std::min<size_t>(c.population, r.log->evals.size())));
    check(first == want, "the first generation ", first, " is not the one of the file, ", want);
    check(!r.reports.empty(), "no report");
    for (auto& i : r.reports[0].individuals) got.push_back(i.fitness);
    std::sort(fit.begin(), fit.end());
    std::sort(got.begin(), got.end());
    check(got == fit, "the fitness values loaded are ", got, " instead of ", fit);
}

Config gen_with_genes(Src& s, int population, int generations)
{
    Config c;
    do { c = gen_config(s, population, generations); } while (make(c.d)->GetChromosomeSize() == 0);
    return c;
}
}

static void save_and_load(Src& s)
{
    Scratch scratch;
    Config c = gen_with_genes(s, 24, 8);
    g_processors = s.chance(0.8) ? 1 : 2;
    Function f = gen_function(s);
    s.note("parameters", text(c.d));
    s.note("configuration", c.text());
    s.note("function", std::string(f.name()));
    if (s.chance(0.2)) c.cache = 5;
    rc::begin(s, true);
    GeneticAlgorithm::shared_ptr g = create(c, c.make_mutator());
    Run r;
    std::map<std::string, size_t> last;        // file -> the generation written last
    int files = s.range(1, 3);
    std::vector<std::string> names;
    for (int i = 0; i < files; i++) names.push_back(scratch.name("p" + std::to_string(i)));
    for (int i = s.range(1, 6); i > 0; i--)
    {
        size_t n = s.range(0, c.generations - 1);
        const std::string& name = s.pick(names);
        r.save[n].push_back(name);
        if (!last.count(name) || last[name] < n) last[name] = n;
    }
    // somewhere nobody can write
    if (s.chance(0.1)) r.save[s.range(0, c.generations - 1)].push_back(scratch.dir + "/none/p");
    // something older is replaced
    if (s.chance(0.2)) spit(names[0], "Population_size: \n100000\n" + std::string(5000, 'x'));
    IDiscreteParameters::shared_ptr p = make(c.d);
    optimize(*g, f, p.get(), r);
    check(r.error.empty(), "optimization failed: ", r.error);
    size_t genes = p->GetChromosomeSize();
    std::vector<std::vector<Eval>> gen = split(r);
    // with a cache an individual of a generation need not be evaluated in it
    std::map<Point, double> known;
    std::vector<std::map<Point, double>> known_at;
    for (auto& g1 : gen) { for (auto& e : g1) known[e.p] = e.f; known_at.push_back(known); }
    for (auto& e : last)
    {
        size_t n = e.second;
        std::string text = slurp(e.first);
        s.note("file", text);
        std::vector<Line> lines = parse(text);
        check(lines.size() == (size_t)c.population, "the file has ", lines.size(), " individuals instead of ", c.population);
        std::vector<Point> got;
        double sum = 0;
        for (auto& l : lines)
        {
            check(l.bits.size() == genes, "a chromosome of ", l.bits.size(), " genes was written instead of ", genes);
            check(valid(c.d, l.bits), "an invalid individual was written: ", l.bits);
            got.push_back(point_of(c.d, l.bits));
            auto k = known_at[n].find(got.back());
            check(k != known_at[n].end(), "an individual was written that no generation until then had: ", got.back());
            check(k->second == l.fitness, "the fitness written is ", l.fitness, " instead of ", k->second);
            sum += l.fitness;
        }
        std::sort(got.begin(), got.end());
        if (c.cache == 0) check(got == points(gen[n]), "the file holds ", got, " instead of the individuals of generation ", n, ", ", points(gen[n]));
        double average = sum / c.population;
        check(std::fabs(average - r.reports[n].average) <= 1e-12 * average, "the individuals written have average fitness ", average, ", but the generation had ", r.reports[n].average);
        // and back again, into another algorithm, object and function
        Config d = c;
        d.elites = s.range(0, c.population / 2);
        d.mutator = s.range(0, 1);
        Function h = s.flip() ? f : gen_function(s);
        Run again = load(d, e.first, h, s.range(1, 3));
        expect_loaded(d, again, lines);
        check(slurp(e.first) == text, "loading changed the file");
        s.label("loaded");
    }
    if (c.population > 2 && genes > 1) s.nontrivial();
}

// a population that was not written by this run: every valid text is accepted as it is
static void handmade(Src& s)
{
    Scratch scratch;
    Config c = gen_with_genes(s, 12, 2);
    g_processors = 1;
    size_t genes = make(c.d)->GetChromosomeSize();
    s.note("parameters", text(c.d));
    std::vector<Line> lines;
    for (int i = 0; i < c.population; i++)
    {
        Line l;
        for (int t = 0; t < 6; t++)
        {
            l.bits.clear();
            for (size_t k = 0; k < genes; k++) l.bits += t < 5 && s.flip() ? '1' : '0';
            if (valid(c.d, l.bits)) break;
        }
        l.fitness = s.chance(0.3) ? s.range(0, 5) : std::fabs(s.mag(-30, 30));
        lines.push_back(l);
    }
    std::string text = text_of(c, lines, genes);
    std::string name = scratch.name("p");
    rc::begin(s, true);
    Function f = gen_function(s);
    int kind = s.range(0, 12);
    if (kind == 0)
    {
        s.note("file", text);
        spit(name, text);
        expect_loaded(c, load(c, name, f, 1), lines);
        s.label("accepted");
        s.nontrivial();
        return;
    }
    const char* what = "";
    std::string file = name;
    size_t at = s.index(lines.size());
    switch (kind)
    {
    case 1: what = "a missing file"; text.clear(); file = scratch.dir + "/" + s.pick(std::vector<std::string>{"missing", "no/such", "p "}); break;
    case 2: what = "too few individuals"; text = text_of(c, lines, genes); { size_t cut = 0; for (size_t i = 0; i <= at; i++) cut = text.find("Chromosome:\t", cut + 1); text.resize(cut); } break;
    case 3: what = "a smaller population"; lines.pop_back(); text = text_of(c, lines, genes); break;
    case 11: what = "a larger population"; for (int k = 2 * s.range(1, 3); k > 0; k--) lines.push_back(lines[s.index(lines.size())]); text = text_of(c, lines, genes); break;
    case 12:
        what = "an announcement of another size";
        {
            std::string head = s.flip() ? "Population_size: " : "Chromosome_size: ";
            size_t q = text.find(head);
            if (q == std::string::npos) throw Discard();
            q = text.find_first_of("0123456789", q);
            size_t e = text.find_first_not_of("0123456789", q);
            long was = std::stol(text.substr(q, e - q)), now = s.pick(std::vector<long>{was + 1, was + 2, was - 1, was / 2, 2 * was, was + 65536, was + (1L << 32)});
            if (now == was) throw Discard();
            text.replace(q, e - q, std::to_string(now));
        }
        break;
    case 4: what = "another number of genes"; text = text_of(c, lines, s.flip() ? genes + 1 : genes - 1); break;
    case 5: what = "a chromosome of another length"; if (s.flip()) lines[at].bits += '0'; else lines[at].bits.pop_back(); text = text_of(c, lines, genes); break;
    case 6: what = "foreign characters"; lines[at].bits[s.index(genes)] = "2xO-b.9"[s.index(7)]; text = text_of(c, lines, genes); break;
    case 7:
        {
            what = "an individual outside the constraints";
            std::string b;
            bool found = false;
            for (int t = 0; t < 20 && !found; t++)
            {
                b.clear();
                for (size_t k = 0; k < genes; k++) b += t == 0 || s.flip() ? '1' : '0';
                found = !valid(c.d, b);
            }
            if (!found) throw Discard();
            lines[at].bits = b;
            text = text_of(c, lines, genes);
            break;
        }
    case 8: what = "an empty file"; text = s.pick(std::vector<std::string>{"", "\n", "Population_size: ", "Population_size: \n" + std::to_string(c.population)}); break;
    case 9: what = "a truncated file"; { size_t cut = text.rfind("Fitness:\t"); text.resize(text.rfind("Chromosome:\t") + s.index(cut - text.rfind("Chromosome:\t"))); } break;
    default: what = "no valid fitness"; { std::string f1 = s.pick(std::vector<std::string>{"x", "-1", "-0.5", "good", "--1"}); size_t p = 0; for (size_t i = 0; i <= at; i++) p = text.find("Fitness:\t", p + 1); p += 9; size_t e = text.find('\n', p); text.replace(p, e - p, f1); } break;
    }
    s.label(what);
    s.note("damage", std::string(what));
    s.note("file", text);
    if (kind != 1) spit(name, text);
    Run r = load(c, file, f, 1);
    check(!r.error.empty(), what, " was accepted");
    s.nontrivial();
}

// anything at all: refused before anything is evaluated, or all of it comes from the file
static void fuzzed(Src& s)
{
    Scratch scratch;
    Config c = gen_with_genes(s, 8, 1);
    g_processors = 1;
    size_t genes = make(c.d)->GetChromosomeSize();
    s.note("parameters", text(c.d));
    std::vector<Line> lines;
    for (int i = 0; i < c.population; i++)
    {
        Line l{std::string(genes, '0'), (double)s.range(0, 9)};
        if (s.flip()) for (auto& b : l.bits) { b = s.flip() ? '1' : '0'; }
        if (!valid(c.d, l.bits)) l.bits = std::string(genes, '0');
        lines.push_back(l);
    }
    std::string text = text_of(c, lines, genes);
    for (int k = s.range(0, 5); k > 0 && !text.empty(); k--)
    {
        size_t at = s.index(text.size());
        switch (s.range(0, 5))
        {
        case 0: text[at] = (char)s.draw(255); break;
        case 1: text.erase(at, s.range(1, 6)); break;
        case 2: text.insert(at, 1, s.pick(std::vector<char>{'0', '1', '\n', '\t', ' ', '-', '9', '\0', 'e'})); break;
        case 3: text.resize(at); break;
        case 4: { size_t n = std::min<size_t>(s.range(1, 40), text.size() - at); text.insert(s.index(text.size()), text.substr(at, n)); break; }
        default: { std::string num = s.pick(std::vector<std::string>{"18446744073709551615", "-1", "1e9", "99999999999999999999", "0x10", "nan"}); text.insert(at, num); }
        }
    }
    std::string name = scratch.name("p");
    spit(name, text);
    s.note("file", text);
    rc::begin(s, true);
    Run r = load(c, name, gen_function(s), 1);
    if (!r.error.empty()) { s.label("refused"); return; }
    s.label("accepted");
    check(r.log->evals.size() == (size_t)c.population, r.log->evals.size(), " individuals were evaluated instead of ", c.population);
    check(r.log->all_valid, "an invalid point was evaluated: ", r.log->invalid);
    // every one of them is spelled out in the file
    std::multiset<Point> have;
    std::istringstream in(text);
    std::string w;
    while (in >> w) if (w.size() == genes && w.find_first_not_of("01") == std::string::npos) have.insert(point_of(c.d, w));
    for (auto& e : r.log->evals)
    {
        auto it = have.find(e.p);
        check(it != have.end(), "the point ", e.p, " was evaluated, but is not in the file");
        have.erase(it);
    }
    s.nontrivial();
}

Property pbt::property()
{
    Property p = {"C22",
        {{"save_and_load", 5, save_and_load}, {"handmade", 3, handmade}, {"fuzzed", 4, fuzzed}},
        12000, 600000,
        "Runs that save generated generations to generated files (several, repeatedly, over old ones), parsed and compared with the generation's evaluations, "
        "then loaded by another algorithm whose first generation and fitness values must be those; valid and damaged handmade files (missing, cut, other sizes, "
        "foreign characters, invalid individuals or fitness) and randomly edited ones. Non-trivial: several individuals of several genes, a damaged file, or an "
        "edited one that is accepted.",
        {"The format is the one of the files written: \"Chromosome: <genes> Fitness: <value>\" per individual.",
         "Chromosomes have at least one gene."}};
    p.batch = 100;
    return p;
}
