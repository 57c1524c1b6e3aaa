// C13: the settings manager returns what was last put or read.
#include "pbt.h"
#include <k52/common/settings_manager.h>
#include <fstream>
#include <list>
#include <sstream>
#include <unistd.h>
using namespace pbt;
using k52::SettingsManager;

// model: a tree of values
struct Node
{
    std::string value;
    bool sure = true;   // false: the value is not determined by the property
    std::list<std::pair<std::string, Node>> kids;
    Node* kid(const std::string& n)
    {
        for (auto& k : kids) if (k.first == n) return &k.second;
        return nullptr;
    }
    Node& make(const std::string& n)
    {
        if (Node* k = kid(n)) return *k;
        kids.emplace_back(n, Node());
        return kids.back().second;
    }
    Node* find(const std::string& path)
    {
        size_t d = path.find('.');
        Node* k = kid(path.substr(0, d));
        if (!k || d == std::string::npos) return k;
        return k->find(path.substr(d + 1));
    }
    Node& at(const std::string& path)
    {
        size_t d = path.find('.');
        Node& k = make(path.substr(0, d));
        return d == std::string::npos ? k : k.at(path.substr(d + 1));
    }
};

static std::string gen_path(Src& s)
{
    static const std::vector<std::string> seg = {"a", "b", "c", "key", "Key", "a1", "x-y", "_u", "longer_name"};
    int d = s.weighted({50, 40, 20, 10, 1}) + 1;
    if (d == 5) d = s.range(5, 20);
    std::string r;
    for (int i = 0; i < d; i++) r += (i ? "." : "") + (s.chance(0.01) ? std::string((size_t)s.range(20, 300), 'k') + s.pick(seg) : s.pick(seg));
    return r;
}

static std::string gen_text(Src& s, bool xml)
{
    switch (s.range(0, 9))
    {
    case 0: return std::to_string(s.range(-100, 100));
    case 1: return std::to_string(s.range64(-4000000000LL, 4000000000LL));
    case 2: return s.flip() ? "2147483648" : "-2147483649";
    case 3: return show(s.mag(-20, 20));
    case 4: return s.flip() ? "true" : "false";
    case 5: return s.flip() ? "1" : "0";
    case 6: return "";
    case 7: return std::to_string(s.range(0, 99)) + s.pick(std::vector<std::string>{"abc", " 7", ",5", "x"});
    default:
        {
            std::string r;
            int n = s.chance(0.01) ? s.range(13, 5000) : s.size(1, 12);
            if (s.chance(0.05)) r = s.pick(std::vector<std::string>{"\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xd0\xb0"});
            if (n > 12) { r += std::string((size_t)(n - 12), "aZ0.-"[s.index(5)]); n = 12; }
            static const std::string plain = "abcXYZ01 .,:;/=-_+*()#@!?[]{}|~\"'", marked = "abcXYZ01 .,:;/=-_+*()#@!?[]{}|~&<>";
            const std::string& al = xml ? marked : plain;
            for (int i = 0; i < n; i++) r += al[s.index(al.size())];
            return r;
        }
    }
}

template<class T> static bool convert(const std::string& v, T& out)
{
    std::istringstream i(v);
    if (!(i >> out)) return false;
    i >> std::ws;
    return i.eof() || i.peek() == EOF;
}
template<> bool convert(const std::string& v, std::string& out) { out = v; return true; }
template<> bool convert(const std::string& v, bool& out)
{
    // both spellings of a truth value
    std::istringstream i(v);
    if (!(i >> out))
    {
        i.clear();
        i.str(v);
        i.seekg(0);
        if (!(i >> std::boolalpha >> out)) return false;
    }
    i >> std::ws;
    return i.eof() || i.peek() == EOF;
}

template<class T> static void get_one(Src& s, const SettingsManager& m, Node& model, const std::string& path, T dflt)
{
    Node* n = model.find(path);
    T want = T();
    bool have = n && convert<T>(n->value, want);
    if (n && !n->sure) return;
    if (s.noting()) { s.note() << "get " << path << ", default " << show(dflt) << "\n"; }
    check(m.get<T>(path, dflt) == (have ? want : dflt), "get ", path, " with default ", dflt, " gives ", m.get<T>(path, dflt), ", expected ", have ? want : dflt);
    if (have) check(m.get<T>(path) == want, "get ", path, " gives ", m.get<T>(path), ", expected ", want);
    else must_throw<std::runtime_error>(("get of " + path + " without a default").c_str(), [&] { m.get<T>(path); });
}

static void get_any(Src& s, const SettingsManager& m, Node& model, const std::string& path)
{
    switch (s.range(0, 4))
    {
    case 0: get_one<std::string>(s, m, model, path, "dflt"); break;
    case 1: get_one<int>(s, m, model, path, -77); break;
    case 2: get_one<double>(s, m, model, path, 0.125); break;
    case 3: get_one<bool>(s, m, model, path, s.flip()); break;
    default: get_one<long long>(s, m, model, path, 1LL << 40);
    }
}

static void all(Src& s, const SettingsManager& m, Node& n, const std::string& prefix, int& count)
{
    std::vector<std::string> seen;
    for (auto& k : n.kids)
    {
        bool dup = false;
        for (auto& q : seen) dup = dup || q == k.first;
        if (dup) continue;   // a path finds the first of equal siblings
        seen.push_back(k.first);
        std::string p = prefix.empty() ? k.first : prefix + "." + k.first;
        count++;
        if (k.second.sure)
            check(m.get<std::string>(p, "nothing there") == k.second.value, p, " holds ", m.get<std::string>(p, "nothing there"), ", expected ", k.second.value);
        all(s, m, k.second, p, count);
    }
}

static void later(Src& s, SettingsManager& m, Node& model)
{
    int ops = s.size(0, 30), count = 0;
    for (int i = 0; i < ops; i++)
    {
        std::string path = gen_path(s);
        if (s.chance(0.45))
        {
            switch (s.range(0, 3))
            {
            case 0: { int v = s.range(-1000, 1000); if (s.noting()) s.note() << "put " << path << " " << v << "\n"; check(m.put(path, v), "put fails"); model.at(path).value = std::to_string(v); model.at(path).sure = true; break; }
            case 1: { std::string v = gen_text(s, false); if (s.noting()) s.note() << "put " << path << " " << show(v) << "\n"; check(m.put(path, v), "put fails"); model.at(path).value = v; model.at(path).sure = true; break; }
            case 2:
                {
                    double v = s.mag(-30, 30);
                    if (s.noting()) s.note() << "put " << path << " " << show(v) << "\n";
                    check(m.put(path, v), "put fails");
                    check(m.get<double>(path, 0.0) == v, "put ", v, ", got back ", m.get<double>(path, 0.0));
                    // the text of a number is free
                    model.at(path).value = m.get<std::string>(path);
                    model.at(path).sure = true;
                    break;
                }
            default:
                {
                    bool v = s.flip();
                    if (s.noting()) s.note() << "put " << path << " " << show(v) << "\n";
                    check(m.put(path, v), "put fails");
                    check(m.get<bool>(path, !v) == v, "put ", v, ", got back the opposite");
                    model.at(path).value = m.get<std::string>(path);
                    model.at(path).sure = true;
                }
            }
        }
        else get_any(s, m, model, path);
    }
    // nothing else has changed
    all(s, m, model, "", count);
    if (count >= 2) s.nontrivial();
}

static void command_line(Src& s)
{
    std::vector<std::string> args;
    Node model;
    int n = s.chance(0.01) ? s.range(11, 100) : s.size(0, 10);
    for (int i = 0; i < n; i++)
    {
        std::string path = gen_path(s);
        switch (s.weighted({8, 1, 1, 1}))
        {
        case 0:
            {
                std::string v = gen_text(s, false);
                if (s.chance(0.2)) v += "=" + gen_text(s, false);
                args.push_back("--" + path + "=" + v);
                model.at(path).value = v;
                model.at(path).sure = true;
                break;
            }
        case 1: args.push_back("-" + path + "=1"); break;
        case 2: args.push_back(s.flip() ? path + "=--" + path : s.flip() ? "" : "-"); break;
        default:
            args.push_back("--" + path);
            model.at(path).sure = false;
        }
    }
    s.note("arguments", args);
    std::vector<const char*> argv;
    for (auto& a : args) argv.push_back(a.c_str());
    argv.push_back(nullptr);
    SettingsManager m((int)args.size(), argv.data());
    later(s, m, model);
}

static std::string esc(const std::string& v)
{
    std::string r;
    for (char c : v) r += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : std::string(1, c);
    return r;
}

static void emit(Src& s, std::string& out, const std::string& name, Node& n, int depth, int indent)
{
    static const std::vector<std::string> seg = {"a", "b", "c", "key", "Key", "a1", "x-y", "_u", "longer_name"};
    std::string pad = indent ? "\n" + std::string((size_t)(depth * indent), ' ') : "";
    if (depth) out += pad;
    out += "<" + name;
    int attrs = s.chance(0.25) ? s.range(1, 2) : 0;
    for (int i = 0; i < attrs; i++)
    {
        std::string an = i ? "second" : "first", v = std::to_string(s.range(0, 99));
        out += " " + an + "=\"" + v + "\"";
        n.at("<xmlattr>." + an).value = v;
    }
    if (depth < 4 && s.chance(depth == 0 ? 0.95 : 0.45))
    {
        out += ">";
        if (s.chance(0.2)) { out += "<!-- a comment -->"; n.kids.emplace_back("<xmlcomment>", Node()); n.kids.back().second.sure = false; }
        int k = s.range(1, 4);
        std::vector<std::string> used;
        for (int i = 0; i < k; i++)
        {
            std::string c = s.pick(seg);
            n.kids.emplace_back(c, Node());
            emit(s, out, c, n.kids.back().second, depth + 1, indent);
        }
        if (indent) { n.sure = false; out += pad; }
        out += "</" + name + ">";
    }
    else
    {
        n.value = gen_text(s, true);
        // white space alone may be dropped by the parser
        if (n.value.find_first_not_of(' ') == std::string::npos) n.value = "";
        if (n.value.empty() && s.flip()) out += "/>";
        else out += ">" + esc(n.value) + "</" + name + ">";
    }
}

static std::string gen_xml(Src& s, Node& model)
{
    std::string out;
    if (s.flip()) out += "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
    static const std::vector<std::string> root = {"config", "a", "key"};
    std::string r = s.pick(root);
    model.kids.emplace_back(r, Node());
    emit(s, out, r, model.kids.back().second, 0, s.range(0, 2));
    return out;
}

static void write(const std::string& name, const std::string& text)
{
    std::ofstream f(name.c_str(), std::ios::binary);
    f << text;
}

static void xml(Src& s)
{
    Node model;
    std::string text = gen_xml(s, model);
    s.note("file", text);
    write("settings.xml", text);
    SettingsManager m(std::string("settings.xml"));
    unlink("settings.xml");
    // some reads below the root
    int n = s.range(0, 6);
    for (int i = 0; i < n; i++) get_any(s, m, model, model.kids.front().first + "." + gen_path(s));
    later(s, m, model);
}

static void bad_file(Src& s)
{
    Node model;
    std::string text = gen_xml(s, model);
    s.nontrivial();
    switch (s.range(0, 3))
    {
    case 0:
        s.note("missing file", true);
        must_throw<std::runtime_error>("a missing file", [] { SettingsManager m(std::string("no_such_file.xml")); });
        return;
    case 1:
        {
            // cut before the end of the root element, after its start
            size_t from = text.find('<', text[1] == '?' ? 2 : 0) + 1;
            text.resize((size_t)s.range((int)from, (int)text.size() - 1));
            break;
        }
    case 2: text += "</extra>"; break;
    default: text = s.pick(std::vector<std::string>{"<a b></a>", "no markup at all", "<>", "<a><b>", "<a b='1></a>"});
    }
    s.note("file", text);
    write("settings.xml", text);
    must_throw<std::runtime_error>("a malformed file", [] { SettingsManager m(std::string("settings.xml")); });
    unlink("settings.xml");
}

Property pbt::property()
{
    Property p;
    p.id = "C13";
    p.facets = {{"command line", 8, command_line}, {"xml", 8, xml}, {"bad file", 1, bad_file}};
    p.quick_cases = 80000;
    p.thorough_cases = 5000000;
    p.rule = "Generated command lines (options with nested keys and values of all sorts, repeated keys, non-options) and XML files (nesting, attributes, comments, escapes, indentation, repeated siblings) "
             "followed by histories of up to 30 puts and gets of five types, against a tree model; at the end every key is read. Non-trivial: at least two keys were read at the end.";
    p.assumptions = {"keys are not empty", "an option without '=' is defined, but its value is left open", "conversion is that of the standard streams"};
    return p;
}
