// C25: graphs.
// modules: graph-lib
#include "ref.h"
#include <algorithm>
#include <fstream>
#include <map>
#include <unistd.h>
#include <sys/stat.h>
#include <lube/graph.h>
using namespace libube;
using mc::quote;

namespace
{
    typedef std::pair<long, long> Edge;
    struct Ref
    {
        long n = 0;
        std::vector<Edge> e;
        std::string text() const
        {
            std::vector<Edge> s = e;
            std::sort(s.begin(), s.end());
            std::string r = std::to_string(n) + ":";
            for (auto& x : s) r += " " + std::to_string(x.first) + "->" + std::to_string(x.second);
            return r;
        }
    };
    std::string slurp(const std::string& f)
    {
        std::ifstream s(f, std::ios::binary);
        std::stringstream b;
        b << s.rdbuf();
        return b.str();
    }
    void spit(const std::string& f, const std::string& s) { std::ofstream(f, std::ios::binary) << s; }
    // As much of the language of GraphViz as it takes: node and edge
    // statements, with attributes that we ignore
    Ref parse(const std::string& s)
    {
        Ref r;
        size_t i = 0;
        auto bad = [&](const char* w){ mc::violate("dot", "not a GraphViz file (%s at %d): %s", w, (int)i, quote(s).c_str()); };
        auto ws = [&]{ while (i < s.size() && isspace((unsigned char)s[i])) i++; };
        auto id = [&]{
            ws();
            std::string w;
            if (i < s.size() && s[i] == '"') { i++; while (i < s.size() && s[i] != '"') w += s[i++]; i++; return w; }
            while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_')) w += s[i++];
            return w;
        };
        auto number = [&](const std::string& w){
            if (w.empty() || w.size() > 15) bad("number");
            for (char c : w) if (!isdigit((unsigned char)c)) bad("number");
            return atol(w.c_str());
        };
        auto attr = [&]{ ws(); if (i < s.size() && s[i] == '[') { while (i < s.size() && s[i] != ']') i++; i++; ws(); } };
        if (id() != "digraph") bad("digraph");
        id();
        ws();
        if (i >= s.size() || s[i++] != '{') bad("{");
        std::map<long, int> seen;
        for (;;)
        {
            ws();
            if (i >= s.size()) bad("end");
            if (s[i] == '}') { i++; break; }
            if (s[i] == ';') { i++; continue; }
            long a = number(id());
            ws();
            if (s.compare(i, 2, "->") == 0)
            {
                i += 2;
                long b = number(id());
                r.e.push_back(Edge(a, b));
            }
            else
            {
                if (seen[a]++) bad("vertex twice");
                r.n++;
            }
            attr();
        }
        ws();
        if (i != s.size()) bad("more after the end");
        for (auto& v : seen) if (v.first >= r.n) bad("vertex index");
        for (auto& x : r.e) if (x.first >= r.n || x.second >= r.n) bad("edge to no vertex");
        return r;
    }

    void check(graph& g, const Ref& r, const std::string& f)
    {
        spit(f, std::string(3000, 'x'));       // is replaced
        var name = f.c_str();
        g.writeGraphViz(name);
        MC_CHECK(ref::strOf(name) == f, "changed", "the file name is changed to %s", ref::show(name).c_str());
        std::string s = slurp(f);
        Ref got = parse(s);
        MC_CHECK(got.text() == r.text(), "graph", "graph %s is written as %s: %s", r.text().c_str(), got.text().c_str(), quote(s).c_str());
        std::string f2 = f + "2";
        g.writeGraphViz(f2.c_str());
        MC_CHECK(slurp(f2) == s, "twice", "written twice, %s is %s then %s", r.text().c_str(), quote(s).c_str(), quote(slurp(f2)).c_str());
        mc::step(2);
        mc::state(r.text());
    }

    // Histories on two graphs of a module and one of another
    void histories(int depth, int graphs, bool pre)
    {
        std::unique_ptr<graphmodule> m1(new graphmodule), m2(graphs > 2 ? new graphmodule : 0);
        graph* g[3] = { &m1->create(), graphs > 1 ? &m1->create() : 0, graphs > 2 ? &m2->create() : 0 };
        Ref r[3];
        std::string dir = mc::scratch();
        int n = mc::range(0, depth);
        if (pre)
            for (int i=0; i<3; i++)
                MC_CHECK((long)g[0]->addVertex() == r[0].n++, "index", "vertex index");
        for (int i=0; i<n; i++)
        {
            int k = graphs > 1 ? mc::choose(graphs) : 0;
            // A vertex, an edge between two of those there are, or a write
            int m = (int)r[k].n, o = mc::choose(2 + m * m);
            mc::step();
            if (o == 0)
            {
                long v = g[k]->addVertex();
                MC_NOTE("vertex %d: %ld", k, v);
                MC_CHECK(v == r[k].n, "index", "vertex %ld of graph %d is %ld", r[k].n, k, v);
                r[k].n++;
            }
            else if (o == 1)
            {
                MC_NOTE("write %d", k);
                check(*g[k], r[k], dir + "/g");
            }
            else
            {
                Edge e((o - 2) / m, (o - 2) % m);
                MC_NOTE("edge %d: %ld %ld", k, e.first, e.second);
                g[k]->addEdge(e.first, e.second);
                r[k].e.push_back(e);
            }
        }
        for (int k=0; k<graphs; k++)
            check(*g[k], r[k], dir + "/g");
        // Destruction of one module does not affect the other
        if (graphs > 2)
        {
            m1.reset();
            check(*g[2], r[2], dir + "/g");
        }
    }

    // Edges with ends that are not vertices: either an error without effect,
    // or the vertices are there afterwards
    void outside()
    {
        graphmodule m;
        graph& g = m.create();
        Ref r;
        int n = mc::range(0, 3), e = mc::range(0, n ? (mc::thorough() ? 2 : 1) : 0);
        for (int i=0; i<n; i++) { g.addVertex(); r.n++; }
        for (int i=0; i<e; i++) { Edge x(mc::choose(n), mc::choose(n)); g.addEdge(x.first, x.second); r.e.push_back(x); }
        long ends[] = { -1, -2, -1000000007, std::numeric_limits<long>::min(), 0, n - 1, n, n + 1, n + 2 };
        for (int k=0; k<2; k++)
        {
            long a = mc::pick(ends), b = mc::pick(ends);
            MC_NOTE("edge %ld %ld", a, b);
            mc::step();
            bool threw = ref::throws([&]{ g.addEdge(a, b); });
            MC_CHECK(threw || (a >= 0 && b >= 0), "negative", "an edge from %ld to %ld is accepted", a, b);
            if (a >= 0 && b >= 0 && a < r.n && b < r.n)
                MC_CHECK(!threw, "threw", "an edge from %ld to %ld of %ld throws", a, b, r.n);
            if (!threw)
            {
                r.e.push_back(Edge(a, b));
                r.n = std::max(r.n, std::max(a, b) + 1);
            }
        }
        check(g, r, mc::scratch() + "/g");
        long v = g.addVertex();
        MC_CHECK(v == r.n, "index", "vertex %ld is %ld", r.n, v);
        r.n++;
        check(g, r, mc::scratch() + "/g");
    }

    // Files that can not be written
    void unwritable()
    {
        graphmodule m;
        graph& g = m.create();
        Ref r;
        std::string d = mc::scratch();
        int n = mc::range(0, 2);
        for (int i=0; i<n; i++) { g.addVertex(); g.addEdge(0, i); r.e.push_back(Edge(0, i)); r.n++; }
        mkdir((d + "/dir").c_str(), 0700);
        std::string f[] = { d + "/absent/x", d + "/dir", "", "/dev/full" };
        int k = mc::choose(4);
        MC_NOTE("%s", f[k].c_str());
        mc::step();
        MC_CHECK(ref::throws([&]{ g.writeGraphViz(f[k].c_str()); }), "unreported", "writing %s of %d vertices does not throw", quote(f[k]).c_str(), n);
        check(g, r, d + "/g");
    }

    // Large ones
    void large()
    {
        graphmodule m;
        graph& g = m.create();
        static const int size[] = { 0, 1, 10, 100, 1001 };
        int n = mc::pick(size), k = mc::choose(4);
        Ref r;
        for (int i=0; i<n; i++)
        {
            long v = g.addVertex();
            MC_CHECK(v == i, "index", "vertex %d is %ld", i, v);
        }
        r.n = n;
        for (int i=0; i<n; i++)
            for (int j=0; j<k; j++)
            {
                Edge e(i, (i * 7 + j * 3) % n);
                g.addEdge(e.first, e.second);
                r.e.push_back(e);
            }
        mc::step(n);
        check(g, r, mc::scratch() + "/g");
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::bound("operations", th ? 6 : 5);
    mc::add("one", [th]{ histories(th ? 6 : 5, 1, false); });
    mc::add("three vertices", [th]{ histories(th ? 5 : 4, 1, true); });
    mc::add("three graphs", [th]{ histories(th ? 6 : 5, 3, false); });
    mc::add("outside", outside);
    mc::add("unwritable", unwritable);
    mc::add("large", large);
    mc::add("locale", []{ ref::Foreign f; if (mc::choose(2)) large(); else histories(3, 1, true); });
    mc::add("leaks", []{ histories(3, 3, true); }, mc::LEAK);
    return mc::run(argc, argv, "C25", "model_checking");
}
