// C20: configuration (ini) files.
// modules: ini-lib
#include "ref.h"
#include "big.h"
#include <fstream>
#include <map>
#include <unistd.h>
#include <lube/config.h>
#include <lube/module.h>
using namespace libube;
using mc::quote;

namespace
{
    typedef std::map<std::string, std::string> Section;
    typedef std::map<std::string, Section> Conf;

    std::string show(const Conf& c)
    {
        std::string r;
        for (auto& s : c)
        {
            r += "[" + s.first + "] ";
            for (auto& e : s.second) r += e.first + "=" + e.second + "; ";
        }
        return r;
    }
    std::string trim(std::string s)
    {
        static const char* ws = " \t\r\n\v\f";
        size_t b = s.find_first_not_of(ws);
        if (b == std::string::npos) return "";
        return s.substr(b, s.find_last_not_of(ws) - b + 1);
    }
    // False if the file is not well formed
    bool parse(const std::string& text, Conf& c)
    {
        std::string sec;
        for (size_t p=0, q; p < text.size(); p = q + 1)
        {
            q = std::min(text.find('\n', p), text.size());
            std::string l = trim(text.substr(p, q - p));
            if (l.empty() || l[0] == ';' || l[0] == '#') continue;
            if (l[0] == '[')
            {
                size_t e = l.find(']');
                if (e == std::string::npos) return false;
                sec = l.substr(1, e - 1);
                continue;
            }
            size_t e = l.find('=');
            if (e == std::string::npos) e = l.find(':');
            if (e == std::string::npos) return false;
            c[sec][trim(l.substr(0, e))] = trim(l.substr(e + 1));
        }
        return true;
    }
    Conf conf(const var& v)
    {
        Conf c;
        if (!v.defined()) return c;
        MC_CHECK((long)v.type() == TYPE_ARRAY && (long)v.atype() == TYPE_PAIR, "type", "%s is not a map", ref::show(v).c_str());
        for (int i=0; i<v.size(); i++)
        {
            var s = v.at(i);
            std::string k = ref::strOf(v.key(i));
            MC_CHECK(s.defined() && (long)s.atype() == TYPE_PAIR, "type", "section %s of %s is not a map", k.c_str(), ref::show(v).c_str());
            c[k];
            for (int j=0; j<s.size(); j++)
            {
                var e = s.at(j);
                MC_CHECK(e.defined() && (long)e.type() == TYPE_ARRAY && (long)e.atype() == TYPE_CHAR, "type", "the value %s is not a string", ref::show(e).c_str());
                c[k][ref::strOf(s.key(j))] = ref::strOf(e);
            }
            MC_CHECK((int)c[k].size() == s.size(), "type", "repeated keys in %s", ref::show(v).c_str());
        }
        MC_CHECK((int)c.size() == v.size(), "type", "repeated sections in %s", ref::show(v).c_str());
        return c;
    }

    file& ini()
    {
        static filemodule m("ini");
        static file& f = m.create();
        return f;
    }
    void spew(const std::string& f, const std::string& s) { std::ofstream o(f); o << s; }
    std::string slurp(const std::string& f)
    {
        std::ifstream i(f);
        std::stringstream s;
        s << i.rdbuf();
        return s.str();
    }

    void readCheck(const std::string& text)
    {
        std::string f = mc::scratch() + "/r.ini";
        spew(f, text);
        Conf want;
        bool ok = parse(text, want);
        MC_NOTE("read %s", quote(text).c_str());
        var v;
        bool threw = ref::throws([&] { v = ini().read(f.c_str()); });
        mc::step();
        MC_CHECK(threw == !ok, "malformed", "the file %s %s", quote(text).c_str(), threw ? "throws" : "is read");
        if (ok)
        {
            Conf g = conf(v);
            MC_CHECK(g == want, "read", "the file %s is read as %s, should be %s", quote(text).c_str(), show(g).c_str(), show(want).c_str());
        }
        mc::state(show(want));
    }
    void readLines(int maxn)
    {
        static const char* line[] = { "k=v", "[s]", "[t]", "k = w ", "\tl:x", "", "  ", "; c=1", "#k=c", " [s] ; x", "k=a=b", "l : a=b", "m=", "none", "[broken", "=v", "l::y", "key with space = a b\r", "[]" };
        int n = mc::range(0, maxn);
        std::string s;
        for (int i=0; i<n; i++) { s += mc::pick(line); if (i < n-1) s += "\n"; }
        if (n && mc::choose(2)) s += "\n";
        readCheck(s);
    }
    void readChars(int maxn)
    {
        static const char c[] = { 'k', '=', ':', '[', ']', ' ', '\n', ';' };
        int n = mc::range(0, maxn);
        std::string s;
        for (int i=0; i<n; i++) s += mc::pick(c);
        readCheck(s);
    }

    void writes()
    {
        static const char* secs[] = { "", "s", "t u" };
        static const char* keys[] = { "k", "a key", "9" };
        var v;
        v[nil];
        Conf want;
        for (int i=0; i<3; i++)
        {
            int k = mc::choose(4);
            for (int j=0; j<3; j++)
            {
                if (k != 3 && !(k & 1 << j)) continue;
                if (k == 3 && j == 2) continue;
                var x;
                std::string w;
                int n = mc::choose(k == 3 ? 7 : 6);
                switch (n)
                {
                case 0: w = "v"; x = "v"; break;
                case 1: w = "a=b:c"; x = w.c_str(); break;
                case 2: x = ""; break;
                case 3: x = 3; w = "3"; break;
                case 4: x = 2.5; w = "2.5"; break;
                case 5: w = "x [y] ; z"; x = w.c_str(); break;
                case 6: w = std::string("x\0y", 3); x = var(3, w.data()); break;
                }
                v[secs[i]][keys[j]] = x;
                want[secs[i]][keys[j]] = w;
            }
        }
        std::string f = mc::scratch() + "/w.ini", before = ref::show(v);
        spew(f, "[old]\nx=something that was there before and must go away\n");
        MC_NOTE("write %s", before.c_str());
        ini().write(f.c_str(), v);
        mc::step();
        std::string text = slurp(f);
        Conf g;
        MC_CHECK(parse(text, g) && g == want, "write", "%s is written as %s", before.c_str(), quote(text).c_str());
        var r = ini().read(f.c_str());
        g = conf(r);
        MC_CHECK(g == want, "roundtrip", "%s is read back as %s", before.c_str(), ref::show(r).c_str());
        MC_CHECK(ref::show(v) == before, "source", "writing changed %s to %s", before.c_str(), ref::show(v).c_str());
        mc::state(before);
    }

    void failures()
    {
        int k = mc::choose(6);
        std::string d = mc::scratch(), f = k == 0 ? d + "/absent.ini" : k == 1 ? d : k == 2 ? "" : k == 3 ? "/dev/full" : k == 4 ? d + "/absent/x.ini" : d;
        bool write = k > 2;
        var v;
        v["s"]["k"] = "v";
        if (mc::flip()) for (int i=0; i<2000; i++) v["s"][i * 7 % 2003] = "some longer value";
        if (mc::flip() && !write)
        {
            Config c("s");
            c.configSet("k", "kept");
            MC_CHECK(ref::throws([&] { c.configFile(f.c_str()); }), "failure", "configFile(%s) does not throw", f.c_str());
            MC_CHECK(ref::show(c.config("k")) == "\"kept\"", "failure", "a failed configFile() changed the configuration");
            return;
        }
        MC_NOTE("%s %s", write ? "write" : "read", f.c_str());
        bool threw = ref::throws([&] { if (write) ini().write(f.c_str(), v); else var r = ini().read(f.c_str()); });
        mc::step();
        MC_CHECK(threw, "failure", "%s %s does not throw", write ? "writing" : "reading", k == 1 || k == 5 ? "a directory" : f.c_str());
        mc::state(k);
    }

    // Histories of several configuration objects
    void reset()
    {
        Config c;
        for (const char* s : { "s", "t", "" })
        {
            var r = c.configSection(s);
            r = var();
        }
    }
    void configs(int depth)
    {
        reset();
        static const char* names[] = { "s", "t", "" };
        struct Text { const char* file; bool ok; };
        static const Text files[] = { { "k=global\n[s]\nk=7\nl=file\n", true }, { "[t]\nl = 2.5\n[s]\nl=\n", true }, { "[s]\nk=bad\nl=bad\nnone\n", false } };
        std::string f = mc::scratch() + "/c.ini";
        Conf m;
        Config a("s"), b("t"), n;
        Config* obj[] = { &a, &b, &n };
        int sec[] = { 0, 1, -1 };
        for (int i=0; i<depth; i++)
        {
            int op = mc::choose(11);
            int o = op < 8 ? op % 3 : 0;
            if (op < 6)
            {
                const char* k = op < 3 ? "k" : "l";
                const char* v = op < 3 ? "42" : "x";
                MC_NOTE("configSet(%s, %s) of object %d", k, v, o);
                obj[o]->configSet(k, v);
                if (sec[o] >= 0) m[names[sec[o]]][k] = v;
            }
            else if (op < 8)
            {
                int s = mc::range(-1, 2);
                MC_NOTE("section of object %d is \"%s\"", op - 6, s < 0 ? "none" : names[s]);
                var r = s < 0 ? obj[op - 6]->configSection() : obj[op - 6]->configSection(names[s]);
                sec[op - 6] = s;
                var all;
                if (r.defined() && r.size()) all[""] = r;
                std::string got = show(conf(all)), want;
                if (s >= 0 && m[names[s]].size()) { Conf c; c[""] = m[names[s]]; want = show(c); }
                MC_CHECK(got == want, "section", "the section is %s, should be %s", ref::show(r).c_str(), want.c_str());
            }
            else
            {
                const Text& t = files[op - 8];
                MC_NOTE("configFile(%s)", quote(t.file).c_str());
                spew(f, t.file);
                bool threw = ref::throws([&] { obj[i % 3]->configFile(f.c_str()); });
                MC_CHECK(threw == !t.ok, "file", "configFile(%s) %s", quote(t.file).c_str(), threw ? "throws" : "does not throw");
                Conf c;
                if (t.ok && parse(t.file, c))
                    for (auto& s : c) for (auto& e : s.second) m[s.first][e.first] = e.second;
            }
            mc::step();
            // Everything, by every object, in every type
            for (int q=0; q<3; q++)
                for (const char* k : { "k", "l", "none" })
                {
                    const Section* s = sec[q] < 0 ? 0 : &m[names[sec[q]]];
                    bool has = s && s->count(k);
                    std::string v = has ? s->at(k) : "";
                    var g = obj[q]->config(k);
                    MC_CHECK(has ? g.defined() && ref::strOf(g) == v : !g.defined(), "config", "object %d, section \"%s\", %s is %s, should be %s", q,
                             sec[q] < 0 ? "none" : names[sec[q]], k, ref::show(g).c_str(), has ? v.c_str() : "absent");
                    std::string c = obj[q]->config(k, "default");
                    MC_CHECK(c == (has ? v : "default"), "string", "object %d, %s as a string is %s, should be %s", q, k, c.c_str(), has ? v.c_str() : "default");
                    char* end;
                    double d = strtod(v.c_str(), &end);
                    bool number = has && !v.empty() && !*end;
                    if (has && !number) continue;
                    double want = has ? d : -8.5;
                    double gd = obj[q]->config<double>(k, -8.5);
                    float gf = obj[q]->config<float>(k, -8.5f);
                    MC_CHECK(gd == want && gf == (float)want, "double", "object %d, %s as a double is %g and as a float %g, should be %g", q, k, gd, gf, want);
                    if (want == (long)want || !has)
                    {
                        int wi = has ? (int)d : -8;
                        int gi = obj[q]->config<int>(k, -8);
                        long gl = obj[q]->config<long>(k, -8L);
                        MC_CHECK(gi == wi && gl == wi, "int", "object %d, %s as an int is %d and as a long %ld, should be %d", q, k, gi, gl, wi);
                    }
                }
            mc::state(show(m) + char('0' + sec[0]) + char('0' + sec[1]));
        }
    }
    // Values of other types that are set are given back
    void values()
    {
        reset();
        Config c("s");
        int k = mc::choose(5);
        var v;
        switch (k)
        {
        case 0: v = 7; break;
        case 1: v = 2.5; break;
        case 2: v = 7L; break;
        case 3: v = ref::array(TYPE_FLOAT, {1, 2}); break;
        case 4: v["a"] = 1; break;
        }
        c.configSet("k", v);
        mc::step();
        var g = c.config("k");
        MC_CHECK(ref::show(g) == ref::show(v), "value", "%s was set, %s is given", ref::show(v).c_str(), ref::show(g).c_str());
        if (k < 3)
        {
            double want = k == 1 ? 2.5 : 7;
            MC_CHECK(c.config<double>("k", 0.0) == want && c.config<float>("k", 0.0f) == want, "value", "%s is not given as a number", ref::show(v).c_str());
            MC_CHECK(c.config<int>("k", 0) == (int)want && c.config<long>("k", 0) == (long)want, "value", "%s is not given as an integer", ref::show(v).c_str());
        }
        mc::state(k);
    }

    // Many sections and entries; long keys and values
    void sizes()
    {
        static const std::vector<int> ns = ref::bigSizes(257);
        int n = mc::pick(ns), kind = mc::choose(4), dir = mc::choose(2);
        if (!n) mc::prune();
        std::string what = "kind " + std::to_string(kind) + " of " + std::to_string(n) + (dir ? ", written" : ", read");
        MC_NOTE("%s", what.c_str());
        Conf c;
        auto name = [](const char* p, int i) { return p + std::to_string((i * 7) % 1000) + std::string(1, 'a' + i % 26); };
        switch (kind)
        {
        case 0: for (int i=0; i<n; i++) { c[name("s", i)][name("k", i)] = name("v ", i); c[name("s", i)]["all"] = std::to_string(i); } break;
        case 1: for (int i=0; i<n; i++) c["only"][name("k", i)] = name("v ", i); break;
        case 2: c["s"][std::string(n, 'k') + "ey"] = std::string(n * 4, 'v') + " w"; c["t"]["a"] = "b"; break;
        case 3: c[std::string(n, 's')]["k"] = std::string(n * 40, 'v'); c["t"]["a"] = "b"; break;
        }
        std::string f = mc::scratch() + "/big.ini";
        filemodule m("ini");
        file& ini = m.create();
        mc::step(n);
        if (dir)
        {
            var v;
            v[nil];
            for (auto& s : c) for (auto& e : s.second) v[s.first.c_str()][e.first.c_str()] = e.second.c_str();
            ini.write(f.c_str(), v);
            std::ifstream is(f);
            std::stringstream text;
            text << is.rdbuf();
            Conf d;
            MC_CHECK(parse(text.str(), d) && d == c, "many", "%s: the text is otherwise", what.c_str());
        }
        else
        {
            // The sections in two parts, in another order
            std::ofstream os(f);
            for (int k=0; k<2; k++)
                for (auto s = c.rbegin(); s != c.rend(); ++s)
                {
                    os << "[" << s->first << "]\n; comment\n\n";
                    int i = 0;
                    for (auto& e : s->second) if ((i++ & 1) == k) os << "  " << e.first << (i & 2 ? "=" : " : ") << e.second << " \n";
                }
        }
        var v = ini.read(f.c_str());
        MC_CHECK(v.size() == (int)c.size(), "many", "%s: there are %d sections", what.c_str(), (int)v.size());
        int i = 0;
        for (auto& s : c)
        {
            MC_CHECK(ref::strOf(v.key(i)) == s.first && v.at(i).size() == (int)s.second.size(), "many", "%s: section %d is %.300s", what.c_str(), i, ref::show(v.at(i)).c_str());
            int j = 0;
            for (auto& e : s.second)
            {
                MC_CHECK(ref::strOf(v.at(i).key(j)) == e.first && ref::strOf(v.at(i).at(j)) == e.second, "many", "%s: entry %d of section %d is %.300s", what.c_str(), j, i, ref::show(v.at(i).at(j)).c_str());
                j++;
            }
            i++;
        }
        unlink(f.c_str());
        mc::state(what);
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::add("lines", [=]{ readLines(th ? 4 : 3); });
    mc::add("chars", [=]{ readChars(th ? 7 : 6); });
    mc::add("write", writes);
    mc::add("failures", failures);
    mc::add("configs", [=]{ configs(th ? 5 : 4); });
    mc::add("values", values);
    mc::add("sizes", sizes);
    mc::add("locale", []{ ref::Foreign f; switch (mc::choose(3)) { case 0: writes(); break; case 1: values(); break; case 2: configs(3); break; } });
    mc::bound("lines", th ? 4 : 3);
    return mc::run(argc, argv, "C20", "model_checking");
}
