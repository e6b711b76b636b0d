// C30: errors.
// modules: txt-lib
#include "ref.h"
#include <dlfcn.h>
#include <exception>
#include <lube/module.h>
#include <lube/func.h>
using namespace libube;
using mc::quote;
using ref::cd;

/*
 * The symbols of a backtrace: either the real ones or any list of the sorts
 * that there are.
 */
namespace
{
    std::vector<int> gSymbols;
    bool gFake = false;
    const char* symbolText(int k)
    {
        static const std::string lng = "lib(_Z" + std::string("4abcd") + "IXadL_Z" + std::string(300, 'x') + "EEEvv+0x1) [0x1]";
        static const std::string deep = "/usr/lib/libube.so(_ZNK6libube12UnaryFunctor9broadcastENS_3varERS1_+0x1f) [0x7f]";
        static const std::string big = "x(_ZNSt3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES5_St4lessIS5_ESaISt4pairIKS5_S5_EEE6insertES9_+0x10) [0x20]";
        switch (k)
        {
        case 0: return "./prog(main+0x1d) [0x401136]";
        case 1: return deep.c_str();
        case 2: return "./prog() [0x401136]";
        case 3: return "[0x401136]";
        case 4: return "/lib/libc.so(+0x29d8f) [0x7f]";
        case 5: return lng.c_str();
        case 6: return big.c_str();
        case 7: return "./prog(_Z [0x1]";
        case 8: return "./prog(_ZN3) [0x1]";
        case 9: return "";
        }
        abort();
    }
    const int NSYM = 10;
    int fakeBacktrace(void** b, int n)
    {
        int r = std::min(n, (int)gSymbols.size());
        for (int i=0; i<r; i++) b[i] = 0;
        return r;
    }
}
extern "C" char** backtrace_symbols(void* const* b, int n)
{
    if (!gFake)
    {
        typedef char** (*fn)(void* const*, int);
        static fn f = (fn)dlsym(RTLD_NEXT, "backtrace_symbols");
        return f(b, n);
    }
    if (gSymbols.size() && gSymbols[0] < 0) return 0;      // out of memory
    // One block, as the real one is
    size_t s = n * sizeof(char*);
    for (int i=0; i<n; i++) s += strlen(symbolText(gSymbols[i])) + 1;
    char** r = (char**)malloc(s ? s : 1);
    char* p = (char*)(r + n);
    for (int i=0; i<n; i++)
    {
        r[i] = p;
        strcpy(p, symbolText(gSymbols[i]));
        p += strlen(p) + 1;
    }
    return r;
}

namespace
{
    struct Symbols
    {
        Symbols(std::vector<int> s) { gSymbols = s; gFake = true; mc::gBacktraceFake = fakeBacktrace; }
        ~Symbols() { gFake = false; mc::gBacktraceFake = 0; }
    };
    struct Real
    {
        Real() { mc::gBacktrace = true; }
        ~Real() { mc::gBacktrace = false; }
    };

    const int NVAL = 22;
    var value(int k)
    {
        var v, a;
        switch (k)
        {
        case 0: v = "message"; break;
        case 1: v = 3; break;
        case 2: break;
        case 3: v = ""; break;
        case 4: v = -1.5; break;
        case 5: v = "quote\" back\\ tab\t new\n \xc3\xa9 %s%n"; break;
        case 6: v = std::string(10000, 'x').c_str(); break;
        case 7: v = ref::array(TYPE_INT, { 1, 2, 3 }); break;
        case 8: v["key"] = "value"; v["n"] = 2; break;
        case 9: v[0] = "text"; v[1] = nil; v[2] = 2.5; a = 1, 2; v[3] = a; break;
        case 10: v = ref::array(TYPE_FLOAT, { 1, 2, 3, 4 }).view({ 2, 2 }); break;
        case 11: v = cd(1, -2); break;
        case 12: v = 'c'; break;
        case 13: v = 123456789012L; break;
        case 14: v = 0.25f; break;
        case 15: v = ref::array(TYPE_CDOUBLE, { cd(1, 2), cd(3, 4) }); break;
        case 16: v = std::complex<float>(1, 2); break;
        case 17: v.array(); v.resize(0); break;
        case 18: { varstream s; s << "from " << 2 << " stream"; v = var(s); break; }
        case 19: v["a"]["b"] = 1; break;
        case 20: v = ref::array(TYPE_INT, {}); break;
        case 21: v = "one line\nCall stack (size 3):"; break;
        }
        return v;
    }
    std::string printed(const var& v)
    {
        std::ostringstream s;
        s << v;
        return s.str();
    }
    // That a description is one of this value
    void check(const char* w, const std::string& p)
    {
        MC_CHECK(w != 0, "what", "the description of %s is null", p.c_str());
        std::string s = w;
        MC_CHECK(s.compare(0, p.size(), p) == 0 && (s.size() == p.size() || s[p.size()] == '\n'), "what", "the description of %s is %s", quote(p).c_str(), quote(s).c_str());
    }

    struct Err
    {
        std::unique_ptr<error> e;
        std::string want;            // how it begins
        std::string full;            // all of it
        const char* p = 0;
    };
    void note(Err& x)
    {
        x.p = x.e->what();
        check(x.p, x.want);
        if (x.full.empty()) x.full = x.p;
        MC_CHECK(x.full == x.p, "changed", "%s becomes %s", quote(x.full).c_str(), quote(x.p).c_str());
    }

    // Constructing from any value, from anywhere
    [[noreturn]] void deep(const var& v, int n) { if (n) deep(v, n - 1); throw error(v); }
    class Thrower : public UnaryFunctor
    {
    public:
        Thrower(const var& v) : mVal(v) {}
    protected:
        void scalar(const var& iVar, var& oVar) const
        {
            if (iVar.heap()) broadcast(iVar, oVar); else throw error(mVal);
        }
        var mVal;
    };
    struct Guard
    {
        // Throws and catches while another is on its way
        const var& v;
        std::string& s;
        ~Guard() { try { throw error(v); } catch (error& e) { s = e.what(); } }
    };
    void thrown(bool leaks)
    {
        int k = mc::choose(NVAL), where = mc::choose(7), form = mc::choose(3), bt = mc::choose(3);
        std::unique_ptr<Real> real;
        std::unique_ptr<Symbols> sym;
        if (bt == 1) real.reset(new Real);
        if (bt == 2) sym.reset(new Symbols({ 0, 1, 6 }));
        {
            var v = value(k);
            var holder;                    // a reference to an element
            holder[0] = 1;
            holder[1] = v;
            std::string was = ref::show(v), p = printed(v);
            MC_NOTE("%s thrown %d, caught %d", was.c_str(), where, form);
            auto act = [&]{
                switch (where)
                {
                case 0: throw error(v);
                case 1: deep(v, 5);
                case 2: deep(v, 100);
                case 3: { var a = ref::array(TYPE_INT, { 1, 2, 3 }); Thrower t(v); t(a); return; }
                case 4: throw error(holder[1]);
                case 5: try { throw error(v); } catch (error&) { throw; }
                case 6: try { throw error("other"); } catch (std::exception&) { deep(v, 1); }
                }
            };
            bool caught = false;
            std::string w;
            mc::step();
            if (form == 0) try { act(); } catch (const std::exception& e) { caught = true; w = e.what(); }
            if (form == 1) try { act(); } catch (error e) { caught = true; w = e.what(); }
            if (form == 2)
            {
                std::exception_ptr q;
                try { act(); } catch (...) { q = std::current_exception(); }
                if (q) try { std::rethrow_exception(q); } catch (error& e) { caught = true; w = e.what(); }
            }
            MC_CHECK(caught, "caught", "no error is caught");
            check(w.c_str(), p);
            MC_CHECK(ref::show(v) == was, "value", "throwing %s changes it to %s", was.c_str(), ref::show(v).c_str());
            mc::state(w);
            if (bt == 1)
                MC_CHECK(w.size() > p.size(), "trace", "there is no backtrace in %s", quote(w).c_str());
            if (where == 0)
            {
                std::string s;
                try { Guard g = { v, s }; throw error("outer"); } catch (error& e) { w = e.what(); }
                check(s.c_str(), p);
                check(w.c_str(), "\"outer\"");
            }
        }
    }

    // Backtraces of every sort
    void symbols(int n)
    {
        std::vector<int> s;
        int k = mc::range(-1, n);
        for (int i=0; i<k; i++) s.push_back(mc::choose(NSYM));
        if (k < 0) s = { -1, -1 };
        Symbols sym(s);
        var v = value(mc::choose(3));
        std::string p = printed(v);
        MC_NOTE("%d symbols", k);
        mc::step();
        try { throw error(v); }
        catch (error& e)
        {
            check(e.what(), p);
            mc::state(e.what());
            error f = e;
            check(f.what(), p);
        }
    }
    void frames()
    {
        static const int count[] = { 1, 10, 63, 64, 65, 200 };
        Symbols s(std::vector<int>(mc::pick(count), mc::choose(NSYM)));
        mc::step();
        try { throw error("x"); } catch (error& e) { check(e.what(), "\"x\""); }
    }

    // Histories
    void histories(int depth, int slots, int vals)
    {
        Symbols sym({ 0, 1 });
        {
            std::vector<Err> x(slots);
            std::vector<var> v(vals);
            for (int i=0; i<vals; i++) v[i] = value(i == 0 ? 0 : i == 1 ? 9 : 8);
            std::exception_ptr kept;
            std::string keptWant;
            int n = mc::range(1, depth);
            for (int s=0; s<n; s++)
            {
                std::vector<std::pair<int, int>> ops;
                int empty = -1;
                for (int i=0; i<slots; i++)
                {
                    if (!x[i].e) { if (empty < 0) empty = i; continue; }
                    ops.push_back({ 2, i });                                       // destroy
                    ops.push_back({ 3, i });                                       // throw it, and keep it
                    for (int j=0; j<slots; j++) if (x[j].e) ops.push_back({ 4, i * 10 + j });  // assign
                    ops.push_back({ 7, i });                                       // an error about an error
                }
                if (empty >= 0)
                {
                    for (int i=0; i<vals; i++) ops.push_back({ 0, i });            // construct
                    for (int i=0; i<slots; i++) if (x[i].e) ops.push_back({ 1, i });  // copy
                    if (kept) ops.push_back({ 5, 0 });                             // rethrow and copy
                }
                for (int i=0; i<vals; i++) ops.push_back({ 6, i });                // modify the value
                auto o = mc::pick(ops);
                mc::step();
                MC_NOTE("op %d %d", o.first, o.second);
                switch (o.first)
                {
                case 0:
                    x[empty].want = printed(v[o.second]);
                    x[empty].full = "";
                    x[empty].e.reset(new error(v[o.second]));
                    note(x[empty]);
                    break;
                case 1:
                    x[empty].want = x[o.second].want;
                    x[empty].full = x[o.second].full;
                    x[empty].e.reset(new error(*x[o.second].e));
                    note(x[empty]);
                    break;
                case 2: x[o.second].e.reset(); break;
                case 3:
                    try { throw *x[o.second].e; }
                    catch (error& e)
                    {
                        MC_CHECK(x[o.second].full == e.what(), "changed", "thrown, %s is %s", quote(x[o.second].full).c_str(), quote(e.what()).c_str());
                        kept = std::current_exception();
                        keptWant = x[o.second].full;
                    }
                    break;
                case 4:
                {
                    Err &a = x[o.second / 10], &b = x[o.second % 10];
                    *a.e = *b.e;
                    a.want = b.want;
                    a.full = b.full;
                    note(a);
                    break;
                }
                case 5:
                    try { std::rethrow_exception(kept); }
                    catch (error e)
                    {
                        MC_CHECK(keptWant == e.what(), "changed", "thrown again, %s is %s", quote(keptWant).c_str(), quote(e.what()).c_str());
                        x[empty].want = keptWant.substr(0, keptWant.find("\nCall"));
                        x[empty].full = keptWant;
                        x[empty].e.reset(new error(e));
                        note(x[empty]);
                    }
                    break;
                case 6:
                    if (o.second == 0) v[0].append(" more");
                    else if (o.second == 1) v[1][1] = "changed";
                    else v[2]["new"] = (int)v[2].size();
                    break;
                case 7:
                {
                    var w = x[o.second].e->what();
                    std::string p = printed(w);
                    try { throw error(x[o.second].e->what()); }
                    catch (error& e) { check(e.what(), p); }
                    break;
                }
                }
                // All that there are say what they did
                for (auto& y : x)
                {
                    if (!y.e) continue;
                    MC_CHECK(y.full == y.e->what(), "changed", "%s becomes %s", quote(y.full).c_str(), quote(y.e->what()).c_str());
                    MC_CHECK(y.full == y.p, "pointer", "the description %s becomes %s where it was", quote(y.full).c_str(), quote(y.p).c_str());
                    mc::state(y.full);
                }
            }
            if (mc::flip()) kept = nullptr;
            for (int i=0; i<slots; i++) if (mc::flip()) x[i].e.reset();
            for (auto& y : x) if (y.e) MC_CHECK(y.full == y.e->what(), "changed", "%s becomes %s", quote(y.full).c_str(), quote(y.e->what()).c_str());
        }
    }

    // Thrown by a module, caught after that has gone
    void modules()
    {
        std::unique_ptr<Real> real;
        if (mc::flip()) real.reset(new Real);
        int k = mc::choose(2);
        mc::step();
        std::unique_ptr<error> kept;
        {
            try
            {
                filemodule m("txt");
                file& f = m.create();
                if (k) f.write("/nonexistent/x", "y"); else f.read("/nonexistent/x");
            }
            catch (error& e) { kept.reset(new error(e)); }
            MC_CHECK(kept.get() != 0, "caught", "no error is caught");
            std::string s = kept->what();
            MC_CHECK(s.size() > 2 && s[0] == '"', "what", "the module's error is %s", quote(s).c_str());
            mc::state(s);
        }
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    { mc::gBacktrace = true; try { throw error("first"); } catch (error&) {} mc::gBacktrace = false; }
    mc::bound("operations", th ? 6 : 5);
    mc::add("thrown", []{ thrown(false); });
    mc::add("symbols", [th]{ symbols(th ? 5 : 4); });
    mc::add("frames", frames);
    mc::add("histories", [th]{ histories(th ? 6 : 5, 2, 2); });
    mc::add("three errors", [th]{ histories(th ? 5 : 4, 3, 3); });
    mc::add("modules", modules);
    mc::add("leaks", []{ histories(4, 2, 1); }, mc::LEAK);
    mc::add("leaks thrown", []{ thrown(true); }, mc::LEAK);
    mc::add("leaks symbols", []{ symbols(2); }, mc::LEAK);
    return mc::run(argc, argv, "C30", "model_checking");
}
