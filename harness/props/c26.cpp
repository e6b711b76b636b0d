// C26: loading of modules.
// modules: txt-lib ini-lib xml-lib path-lib graph-lib ged-lib gnuplot-lib
// plugins: mcgood mcother mcnofact mcundef
#include "ref.h"
#include <fstream>
#include <map>
#include <dlfcn.h>
#include <lube/module.h>
#include <lube/path.h>
#include <lube/graph.h>
#include "../plugins/probe.h"
using namespace libube;
using mc::quote;

namespace
{
    // What the libraries tell us
    std::map<const void*, int> gLive;
    int gLoads[3];
    std::string gFault;
    void fault(const char* w) { if (gFault.empty()) gFault = w; }
}
extern "C" void mcMade(const void* o, int k)
{
    if (gLive.count(o)) fault("made where one is alive");
    if (gLoads[k] != 1) fault("made while not loaded");
    gLive[o] = k;
}
extern "C" void mcGone(const void* o, int k)
{
    if (!gLive.count(o) || gLive[o] != k) fault("destroyed but not alive");
    if (gLoads[k] != 1) fault("destroyed while not loaded");
    gLive.erase(o);
}
extern "C" void mcLoad(int k, int l)
{
    gLoads[k] += l ? 1 : -1;
    if (gLoads[k] < 0 || gLoads[k] > 1) fault("loaded twice");
}

namespace
{
    struct Inst { Probe* p; long total; std::string arg; };
    struct Slot
    {
        std::unique_ptr<module> m;
        int kind = -1;
        std::vector<Inst> inst;
    };
    static const char* good[] = { "mcgood", "mcother" };
    static const char* bad[] = { "mcnofact", "mcundef", "mcabsent", "", "mcgood.so", "mccorrupt", "mcempty", "../mcgood" };
    const int NBAD = 8;

    void fresh() { gLive.clear(); gFault.clear(); }
    bool present(const std::string& n)
    {
        void* h = dlopen(("lib" + n + ".so").c_str(), RTLD_LAZY | RTLD_NOLOAD);
        if (h) dlclose(h);
        dlerror();
        return h != 0;
    }
    void consistent(const std::vector<Slot>& s)
    {
        MC_CHECK(gFault.empty(), "life", "an instance is %s", gFault.c_str());
        size_t want = 0;
        int loaded[2] = { 0, 0 };
        for (auto& x : s)
        {
            if (!x.m) continue;
            loaded[x.kind] = 1;
            want += x.inst.size();
            for (auto& i : x.inst)
                MC_CHECK(gLive.count(i.p) && gLive[i.p] == x.kind, "dead", "an instance of %s is no longer alive", good[x.kind]);
        }
        MC_CHECK(gLive.size() == want, "alive", "%d instances are alive instead of %d", (int)gLive.size(), (int)want);
        for (int k=0; k<3; k++)
        {
            int l = k < 2 ? loaded[k] : 0;
            MC_CHECK(gLoads[k] == l, "loaded", "library %d is %s", k, l ? "not loaded" : "left loaded");
        }
    }
    // Use an instance: it behaves as one that is alone
    void use(Inst& i, int kind, long add)
    {
        i.total += add;
        MC_CHECK(i.p->kind() == kind, "kind", "an instance of %s is of kind %d", good[kind], i.p->kind());
        long t = i.p->use(add);
        MC_CHECK(t == i.total, "state", "an instance has total %ld instead of %ld", t, i.total);
        std::string a = ref::show(i.p->arg());
        MC_CHECK(a == i.arg, "arg", "an instance made with %s has %s", i.arg.c_str(), a.c_str());
    }
    var argument(int i)
    {
        var v;
        switch (i)
        {
        case 0: v = "nothing"; break;
        case 1: v = "throw"; break;
        case 2: v = "null"; break;
        case 4: v = "text"; break;
        case 5: v = 3.5; break;
        case 6: v["key"] = 1; break;
        }
        return v;
    }

    void histories(int depth, int loaders, int bads, int args, bool stale)
    {
        fresh();
        std::vector<Slot> s(loaders);
        int n = mc::range(1, depth);
        long count = 1;
        for (int step=0; step<n; step++)
        {
            // What is possible
            std::vector<std::pair<int, int>> op;
            int empty = -1;
            for (int i=0; i<loaders; i++)
            {
                if (!s[i].m)
                {
                    if (empty < 0) empty = i;
                    continue;
                }
                op.push_back({ 3, i });                 // unload
                op.push_back({ 1, i });                 // create
                for (size_t j=0; j<s[i].inst.size(); j++)
                    op.push_back({ 2, (int)(i * 100 + j) });   // use
            }
            if (empty >= 0)
                for (int k=0; k<2+bads; k++) op.push_back({ 0, k });
            if (stale) op.push_back({ 4, 0 });
            auto o = mc::pick(op);
            mc::step();
            switch (o.first)
            {
            case 0:
            {
                std::string name = o.second < 2 ? good[o.second] : bad[o.second - 2];
                MC_NOTE("load %d %s", empty, name.c_str());
                var type = name.c_str();
                module* m = 0;
                bool threw = ref::throws([&]{ m = new module(type); });
                s[empty].m.reset(m);
                MC_CHECK(ref::strOf(type) == name, "changed", "the module name is changed to %s", ref::show(type).c_str());
                MC_CHECK(threw == (o.second >= 2), "load", "loading %s %s", name.c_str(), threw ? "throws" : "does not throw");
                if (!threw)
                {
                    s[empty].kind = o.second;
                    s[empty].inst.clear();
                }
                break;
            }
            case 1:
            {
                Slot& x = s[o.second];
                int a = mc::choose(args);
                var arg = argument(a);
                std::string was = ref::show(arg);
                MC_NOTE("create %d %s", o.second, was.c_str());
                Probe* p = 0;
                bool threw = ref::throws([&]{
                    Module& r = a == 3 ? x.m->create() : x.m->create(arg);
                    p = dynamic_cast<Probe*>(&r);
                });
                MC_CHECK(threw == (a < 3), "create", "creating with %s %s", was.c_str(), threw ? "throws" : "does not throw");
                MC_CHECK(ref::show(arg) == was, "changed", "the argument is changed to %s", ref::show(arg).c_str());
                if (!threw)
                {
                    MC_CHECK(p != 0, "class", "the instance is not a Probe");
                    for (auto& y : s) if (y.m) for (auto& i : y.inst)
                        MC_CHECK(i.p != p, "shared", "an instance is given twice");
                    x.inst.push_back({ p, 0, was });
                }
                break;
            }
            case 2:
                MC_NOTE("use %d", o.second);
                use(s[o.second / 100].inst[o.second % 100], s[o.second / 100].kind, count++);
                break;
            case 3:
                MC_NOTE("unload %d", o.second);
                s[o.second].m.reset();
                s[o.second].inst.clear();
                break;
            case 4:
                // Somebody else's error, that nobody looks at
                MC_NOTE("stale error");
                dlopen("libmcnowhere.so", RTLD_LAZY);
                break;
            }
            consistent(s);
            for (auto& x : s) mc::state(x.m ? (x.kind + 1) * 100 + x.inst.size() : 0);
        }
        for (auto& x : s) if (x.m) for (auto& i : x.inst) use(i, x.kind, count++);
        // In either order
        bool back = mc::flip();
        for (int i=0; i<loaders; i++)
        {
            Slot& x = s[back ? loaders - 1 - i : i];
            x.m.reset();
            x.inst.clear();
            consistent(s);
            for (auto& y : s) if (y.m) for (auto& j : y.inst) use(j, y.kind, count++);
        }
        for (int k=0; k<2; k++)
            MC_CHECK(!present(good[k]), "loaded", "%s is left loaded", good[k]);
        MC_CHECK(!present("mcnofact"), "loaded", "mcnofact is left loaded");
    }

    // Many instances, used all at once
    void many()
    {
        fresh();
        static const int size[] = { 0, 1, 2, 3, 4, 5, 9, 33 };
        int n = mc::pick(size), k = mc::choose(2);
        std::vector<Slot> s(1);
        s[0].kind = k;
        s[0].m.reset(new module(good[k]));
        for (int i=0; i<n; i++)
        {
            var a = i;
            s[0].inst.push_back({ dynamic_cast<Probe*>(&s[0].m->create(a)), 0, ref::show(a) });
            if (i % 3 == 0) ref::throws([&]{ s[0].m->create(argument(i % 9 ? 0 : 1)); });
        }
        for (int r=0; r<2; r++)
            for (auto& i : s[0].inst) use(i, k, &i - &s[0].inst[0] + 1);
        mc::step(n * 2);
        consistent(s);
        s[0].m.reset();
        s[0].inst.clear();
        consistent(s);
    }

    // A module of one sort asked for as another
    void otherwise()
    {
        fresh();
        int what = mc::choose(3), k = mc::choose(4);
        var type = k == 0 ? "mcgood" : k == 1 ? "path" : k == 2 ? "graph" : "txt";
        MC_NOTE("%s", type.str());
        mc::step();
        {
            std::unique_ptr<module> m;
            if (what == 0) m.reset(new filemodule(type));
            if (what == 1) m.reset(new pathmodule());
            if (what == 2) m.reset(new graphmodule());
            for (int i=0; i<3; i++)
            {
                bool threw = ref::throws([&]{
                    if (what == 0) ((filemodule*)m.get())->create();
                    if (what == 1) ((pathmodule*)m.get())->create();
                    if (what == 2) ((graphmodule*)m.get())->create();
                });
                MC_CHECK(threw == (what == 0 && k < 3), "class", "%s as class %d %s", type.str(), what, threw ? "throws" : "does not throw");
            }
        }
        MC_CHECK(gFault.empty() && gLive.empty(), "life", "an instance is %s", gFault.c_str());
    }

    // The library's own modules, several at once
    void own()
    {
        static const char* type[] = { "txt", "ini", "xml", "ged", "gnuplot", "graph", "path", "nosuch" };
        std::unique_ptr<module> m[3];
        int k[3];
        for (int i=0; i<3; i++)
        {
            k[i] = mc::choose(8);
            mc::step();
            MC_NOTE("%s", type[k[i]]);
            bool threw = ref::throws([&]{ m[i].reset(new module(type[k[i]])); });
            MC_CHECK(threw == (k[i] == 7), "load", "loading %s %s", type[k[i]], threw ? "throws" : "does not throw");
        }
        std::string d = mc::scratch();
        std::ofstream(d + "/t.txt") << "[s]\na = b\n";
        std::vector<Module*> inst[3];
        for (int i=0; i<3; i++)
            if (m[i]) for (int j=0; j<2; j++)
                inst[i].push_back(k[i] == 6 ? &m[i]->create((d + "/absent").c_str()) : &m[i]->create());
        // Destroy one, then use the others
        int gone = mc::choose(3);
        m[gone].reset();
        for (int i=0; i<3; i++)
        {
            if (!m[i]) continue;
            for (Module* x : inst[i])
            {
                mc::step();
                file* f = dynamic_cast<file*>(x);
                graph* g = dynamic_cast<graph*>(x);
                path* p = dynamic_cast<path*>(x);
                MC_CHECK((f != 0) == (k[i] < 5) && (g != 0) == (k[i] == 5) && (p != 0) == (k[i] == 6), "class", "%s makes something else", type[k[i]]);
                std::string r;
                bool threw = ref::throws([&]{
                    if (f) r = ref::show(f->read((d + "/t.txt").c_str()));
                    if (g) r = std::to_string((long)g->addVertex());
                    if (p) r = ref::show(p->dir());
                });
                std::string want = k[i] == 0 ? "[\"[s]\", \"a = b\"]" : k[i] == 1 ? "{\"s\": {\"a\": \"b\"}}" : k[i] == 5 ? std::string("0") : "";
                MC_CHECK(r == want && threw == (want == ""), "use", "%s gives %s", type[k[i]], r.c_str());
            }
        }
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    // Libraries that are not: in a place where they would be found
    std::ofstream("libmccorrupt.so") << std::string(200, 'x');
    std::ofstream("libmcempty.so");
    mc::bound("operations", th ? 6 : 5);
    mc::add("working", [th]{ histories(th ? 7 : 5, 3, 0, th ? 5 : 4, false); });
    mc::add("faulty", [th]{ histories(th ? 4 : 3, 3, NBAD, 7, true); });
    mc::add("one loader", [th]{ histories(th ? 7 : 5, 1, 3, 4, true); });
    mc::add("many", many);
    mc::add("otherwise", otherwise);
    mc::add("own", own);
    mc::add("leaks", []{ histories(3, 2, NBAD, 7, true); }, mc::LEAK);
    mc::add("leaks many", many, mc::LEAK);
    return mc::run(argc, argv, "C26", "model_checking");
}
