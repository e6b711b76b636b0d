// C28: plots.
// modules: gnuplot-lib
#include "arr.h"
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
#include <lube/module.h>
using namespace libube;
using mc::quote;
using ref::cd;

namespace
{
    // The plotting program is one that saves what it is given, but only once
    // that has ended
    void program()
    {
        std::string d = mc::scratch();
        static bool path = false;
        if (!path) setenv("PATH", (d + ":" + getenv("PATH")).c_str(), 1);
        path = true;
        if (access((d + "/gnuplot").c_str(), X_OK) == 0) return;
        {
            std::ofstream s(d + "/gnuplot.c");
            s << "#include <stdio.h>\n#include <stdlib.h>\n#include <unistd.h>\n"
                "static char b[1 << 20];\n"
                "int main(void) { size_t n = fread(b, 1, sizeof b, stdin); const char* w = getenv(\"MC_SLOW\");\n"
                "if (w) usleep(atoi(w)); FILE* f = fopen(getenv(\"MC_PLOT\"), \"w\"); if (!f) return 1;\n"
                "fwrite(b, 1, n, f); return fclose(f); }\n";
        }
        if (system(("gcc -O1 -o " + d + "/gnuplot.tmp " + d + "/gnuplot.c && mv " + d + "/gnuplot.tmp " + d + "/gnuplot").c_str())) abort();
    }
    std::string slurp(const std::string& f)
    {
        std::ifstream s(f, std::ios::binary);
        if (s.fail()) return "(no file)";
        std::stringstream b;
        b << s.rdbuf();
        return b.str();
    }

    // Something to plot.  What it should come out as is a line for each of
    // what: either text or a list of numbers
    struct Line { bool text; std::string s; std::vector<double> v; };
    struct Item
    {
        var v;
        bool bad = false;
        std::vector<Line> want;
        std::string show;
        std::vector<ref::Arr> a;
    };
    cd value(int t, int i)
    {
        static const double f[] = { 1.5, -2, 0, 1.0f / 3, 1e-7f, 123456.789f, 1e20f, -0.001f, 7 };
        static const double d[] = { 1.5, -2, 0, 1.0 / 3, 1e-17, 123456.789012345, 1e300, -0.001, 7 };
        static const long l[] = { 1, -2, 0, 33, std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), 100, -1, 7 };
        switch (t)
        {
        case TYPE_FLOAT: case TYPE_CFLOAT: return f[i % 9];
        case TYPE_DOUBLE: case TYPE_CDOUBLE: return d[i % 9];
        case TYPE_CHAR: return cd('a' + i % 26);
        }
        return cd(l[i % 9]);
    }
    Line text(const std::string& s) { return { true, s, {} }; }
    Item array(int t, const ref::Shape& s, int how, int seed = 0)
    {
        Item r;
        r.a.push_back(ref::make(t, s, how, [=](int i){ return value(t, i + seed); }));
        r.v = r.a[0].v;
        auto x = ref::read(r.v);
        r.bad = t >= TYPE_CFLOAT || s.size() > 2;
        if (s.size() == 1)
            for (int i=0; i<s[0]; i++) r.want.push_back({ false, "", { x[i].real() } });
        if (s.size() == 2)
            for (int j=0; j<s[1]; j++)
            {
                Line l = { false, "", {} };
                for (int i=0; i<s[0]; i++) l.v.push_back(x[i * s[1] + j].real());
                r.want.push_back(l);
            }
        r.want.push_back(text("e"));
        return r;
    }
    Item str(const std::string& s)
    {
        Item r;
        r.v = s.c_str();
        r.want.push_back(text(s));
        return r;
    }
    Item item(int i)
    {
        Item r;
        switch (i)
        {
        case 0: return str("plot sin(x), \"-\"");
        case 1: return array(TYPE_DOUBLE, { 4 }, 0);
        case 2: return array(TYPE_FLOAT, { 2, 3 }, 0);
        case 3: return array(TYPE_FLOAT, { 2, 3 }, 1, 3);
        case 4: return array(TYPE_INT, { 6 }, 0);
        case 5: return str("");
        case 6: return array(TYPE_DOUBLE, { 2, 2 }, 2, 2);
        case 7: return array(TYPE_LONG, { 3 }, 2);
        case 8: r.v = 3; r.v = cd(1, 2); r.bad = true; return r;
        case 9: return str("set title \"50% of \\\"%s\\n\\\" %d\"\t'x'");
        case 10: return array(TYPE_FLOAT, { 9 }, 1);
        case 11: return array(TYPE_DOUBLE, { 9 }, 0);
        case 12: return array(TYPE_INT, { 3, 1 }, 0);
        case 13: return array(TYPE_LONG, { 1, 3 }, 1);
        case 14: return array(TYPE_CFLOAT, { 2 }, 0);
        case 15: return array(TYPE_CDOUBLE, { 2, 2 }, 0);
        case 16: return array(TYPE_FLOAT, { 2, 1, 2 }, 0);
        case 17: r.bad = true; return r;                       // nil
        case 18: r.v["k"] = 1; r.bad = true; return r;
        case 19: r.v[0] = 1; r.v[1] = "x"; r.bad = true; return r;
        case 20: return str(std::string(5000, 'x'));
        case 21: return str("two\nlines");
        case 22: return array(TYPE_DOUBLE, { 0 }, 0);
        case 23: return array(TYPE_DOUBLE, { 1 }, 0);
        case 24: return array(TYPE_DOUBLE, { 1, 1 }, 0);
        case 25: return str("\xc3\xa9 # ; \\");
        case 26: return array(TYPE_INT, { 2, 2 }, 1);
        }
        abort();
    }
    const int NITEM = 27;

    struct Plot { std::vector<Line> want; std::string show; };
    // A name that is to be in the output commands
    void output(const std::string& name, Plot& p)
    {
        p.want.push_back(text("set term post eps"));
        std::string q;
        for (char c : name) { if (c == '"' || c == '\\') q += '\\'; q += c; }
        p.want.push_back(text("set output \"" + q + "\""));
        p.show += "to " + name + ": ";
    }
    // That the bytes are as wanted.  A number has to be the same as that to be
    // plotted (as float, as both types are)
    void check(const std::string& out, const Plot& p)
    {
        size_t o = 0;
        auto bad = [&](const char* w){ mc::violate("plot", "%s gives %s (%s)", p.show.c_str(), quote(out.substr(0, 1000)).c_str(), w); };
        bool matrix = false;
        for (auto& l : p.want)
        {
            if (l.text)
            {
                // A blank line after a matrix does not matter
                if (matrix && out[o] == '\n') o++;
                matrix = false;
                if (out.compare(o, l.s.size() + 1, l.s + "\n")) bad(("should have " + l.s).c_str());
                o += l.s.size() + 1;
                continue;
            }
            size_t e = out.find('\n', o);
            if (e == std::string::npos) bad("line missing");
            std::string s = out.substr(o, e - o);
            o = e + 1;
            const char* c = s.c_str();
            matrix = l.v.size() > 1 || *c == ' ';
            for (double d : l.v)
            {
                char* end;
                double x = strtod(c, &end);
                if (end == c || (*end && *end != ' ')) bad("number missing");
                if (x != d && (float)x != (float)d) bad(("should be " + ref::fmt(d, false)).c_str());
                // Doubles exactly
                if ((double)(float)d != d && x != d) bad(("should be " + ref::fmt(d, false)).c_str());
                c = end;
            }
            while (*c == ' ') c++;
            if (*c) bad("more in line");
        }
        if (o != out.size()) bad("more after the end");
    }

    void scripts(int n, int items, int names)
    {
        program();
        static const char* name[] = { "", "x.eps", "a \"b\".eps", "/tmp/c d\\e", "%s%n" };
        std::string f = mc::scratch() + "/plot.out";
        unlink(f.c_str());
        setenv("MC_PLOT", f.c_str(), 1);
        Plot p;
        int k = mc::choose(names);
        var file;
        if (k) { file = name[k]; output(name[k], p); }
        var script;
        script.array();
        script.resize(0);
        bool bad = false;
        std::vector<Item> it;
        for (int i=0; i<n; i++)
        {
            Item x = item(mc::choose(items));
            script.resize(i + 1);
            script.at(i) = x.v;
            if (!bad && !x.bad) p.want.insert(p.want.end(), x.want.begin(), x.want.end());
            bad |= x.bad;
            it.push_back(x);
        }
        if (n == 0 && mc::flip()) script = nil;
        std::string was = ref::show(script);
        p.show += was.substr(0, 500);
        MC_NOTE("%s", p.show.c_str());
        mc::step(n + 1);
        {
            filemodule m("gnuplot");
            libube::file& g = m.create();
            bool threw = ref::throws([&]{ if (k) g.write(file, script); else g.write(nil, script); });
            MC_CHECK(threw == bad, "throw", "%s %s", p.show.c_str(), threw ? "throws" : "does not throw");
            MC_CHECK(ref::throws([&]{ g.read("x"); }), "read", "reading does not throw");
            MC_CHECK(ref::show(script) == was, "changed", "plotting %s changes it to %s", was.c_str(), ref::show(script).c_str());
            for (auto& i : it) for (auto& a : i.a)
                MC_CHECK(ref::read(a.base) == a.was, "changed", "plotting %s changes %s to %s", was.c_str(), ref::list(a.was).c_str(), ref::list(ref::read(a.base)).c_str());
            if (k) MC_CHECK(ref::strOf(file) == name[k], "changed", "the name changes");
        }
        // By now the program has ended.  What came before something that can
        // not be plotted is not specified
        if (!bad)
        {
            std::string out = slurp(f);
            check(out, p);
            mc::state(out);
        }
    }

    // Several writes to a plot, and several plots, that end in any order
    void histories(int depth)
    {
        program();
        std::string d = mc::scratch();
        std::unique_ptr<filemodule> m[2];
        libube::file* g[2];
        Plot p[2];
        std::string f[2];
        for (int i=0; i<2; i++)
        {
            f[i] = d + "/plot" + std::to_string(i);
            unlink(f[i].c_str());
            setenv("MC_PLOT", f[i].c_str(), 1);
            m[i].reset(new filemodule("gnuplot"));
            g[i] = &m[i]->create();
        }
        int n = mc::range(1, depth);
        for (int i=0; i<n; i++)
        {
            int k = mc::choose(2), o = mc::choose(4);
            MC_NOTE("%d %d", k, o);
            mc::step();
            Item x = item(o);
            var s;
            s.array();
            s.resize(1);
            s.at(0) = x.v;
            bool name = mc::flip();
            if (name) output("f", p[k]);
            if (name) g[k]->write("f", s); else g[k]->write(nil, s);
            p[k].want.insert(p[k].want.end(), x.want.begin(), x.want.end());
            p[k].show += ref::show(s) + " ";
        }
        int first = mc::choose(2);
        m[first].reset();
        check(slurp(f[first]), p[first]);
        m[!first].reset();
        check(slurp(f[!first]), p[!first]);
    }
    // A slow program is waited for; several from one module
    void waits()
    {
        program();
        setenv("MC_SLOW", "60000", 1);
        std::string d = mc::scratch(), f[3];
        int n = mc::range(1, 3), k = mc::choose(3);
        {
            filemodule m("gnuplot");
            for (int i=0; i<n; i++)
            {
                f[i] = d + "/slow" + std::to_string(i);
                unlink(f[i].c_str());
                setenv("MC_PLOT", f[i].c_str(), 1);
                libube::file& g = m.create();
                var s;
                for (int j=0; j<k; j++) s[j] = std::to_string(i * 10 + j).c_str();
                g.write(nil, s);
            }
        }
        mc::step(n);
        unsetenv("MC_SLOW");
        for (int i=0; i<n; i++)
        {
            Plot p;
            for (int j=0; j<k; j++) p.want.push_back(text(std::to_string(i * 10 + j)));
            p.show = "slow";
            check(slurp(f[i]), p);
        }
    }
    void large()
    {
        program();
        std::string f = mc::scratch() + "/large";
        setenv("MC_PLOT", f.c_str(), 1);
        static const int size[] = { 10, 1000, 3000 };
        int n = mc::pick(size), two = mc::choose(2);
        Item x = two ? array(TYPE_DOUBLE, { 3, n }, 0) : array(TYPE_FLOAT, { n }, 0);
        Plot p;
        p.want = x.want;
        p.show = "large";
        mc::step(n);
        {
            filemodule m("gnuplot");
            var s;
            s.array();
            s.resize(1);
            s.at(0) = x.v;
            m.create().write(nil, s);
        }
        check(slurp(f), p);
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::bound("items", 5);
    mc::add("all", []{ scripts(mc::range(0, 2), NITEM, 3); });
    mc::add("names", []{ scripts(mc::range(0, 1), 3, 5); });
    mc::add("three", [th]{ scripts(3, th ? NITEM : 16, 1); });
    mc::add("four", [th]{ scripts(4, th ? 12 : 8, 1); });
    mc::add("five", [th]{ scripts(5, th ? 8 : 4, 1); });
    mc::add("histories", [th]{ histories(th ? 4 : 3); });
    mc::add("waits", waits);
    mc::add("large", large);
    mc::add("locale", []{ ref::Foreign f; if (mc::choose(2)) large(); else scripts(mc::range(0, 1), NITEM, 3); });
    mc::add("leaks", []{ scripts(mc::range(1, 2), 20, 2); }, mc::LEAK);
    return mc::run(argc, argv, "C28", "model_checking");
}
