// C03: sharing, copying and lifetime.  The oracle is a graph of objects held
// by shared_ptr.
#include "arr.h"
#include "bigops.h"
#include <map>
using namespace ref;
using namespace libube;

namespace
{
    struct Obj;
    struct Val
    {
        enum { NIL, INT, OBJ } k = NIL;
        int i = 0;
        std::shared_ptr<Obj> o;
        Val() {}
        Val(int n) : k(INT), i(n) {}
        Val(std::shared_ptr<Obj> p) : k(OBJ), o(p) {}
    };
    struct Obj
    {
        enum { INTS, VARS, MAP, STR } k;
        std::vector<Val> v;                    // INTS, VARS, MAP values
        std::vector<std::string> key;          // MAP
        std::string s;
    };
    std::shared_ptr<Obj> mk(decltype(Obj::k) k)
    {
        auto o = std::make_shared<Obj>();
        o->k = k;
        return o;
    }
    void show(const Val& x, std::string& s)
    {
        if (x.k == Val::NIL) { s += "nil"; return; }
        if (x.k == Val::INT) { s += "int " + std::to_string(x.i); return; }
        Obj& o = *x.o;
        if (o.k == Obj::STR) { s += mc::quote(o.s); return; }
        s += o.k == Obj::INTS ? "int[" : o.k == Obj::VARS ? "[" : "{";
        for (size_t i=0; i<o.v.size(); i++)
        {
            if (i) s += ", ";
            if (o.k == Obj::MAP) s += mc::quote(o.key[i]) + ": ";
            if (o.k == Obj::INTS) s += std::to_string(o.v[i].i);
            else show(o.v[i], s);
        }
        s += o.k == Obj::MAP ? "}" : "]";
    }
    std::string show(const Val& x) { std::string s; show(x, s); return s; }
    bool reaches(const Val& from, Obj* to)
    {
        if (from.k != Val::OBJ) return false;
        if (from.o.get() == to) return true;
        if (from.o->k == Obj::INTS || from.o->k == Obj::STR) return false;
        for (auto& v : from.o->v) if (reaches(v, to)) return true;
        return false;
    }

    const int NFRESH = 6;
    var fresh(int k, Val& m)
    {
        switch (k)
        {
        case 0: m = Val(7); return 7;
        case 1:
        {
            auto o = mk(Obj::INTS); o->v = { Val(1), Val(2) }; m = Val(o);
            return { 1, 2 };
        }
        case 2:
        {
            auto s = mk(Obj::STR); s->s = "a";
            auto n = mk(Obj::INTS); n->v = { Val(3), Val(4) };
            auto o = mk(Obj::VARS); o->v = { Val(s), Val(n) }; m = Val(o);
            var in = { 3, 4 };
            return { "a", in };
        }
        case 3:
        {
            auto n = mk(Obj::INTS); n->v = { Val(5), Val(6) };
            auto o = mk(Obj::MAP); o->key = { "k" }; o->v = { Val(n) }; m = Val(o);
            var r;
            r["k"] = var({5, 6});
            return r;
        }
        case 4:
        {
            auto s = mk(Obj::STR); s->s = "str"; m = Val(s);
            return "str";
        }
        }
        m = Val();
        return nil;
    }

    bool indexable(const Val& v)
    { return v.k == Val::OBJ && v.o->k != Obj::STR && v.o->v.size(); }

    // An lvalue within a variable
    struct Place { int x, i, j; };

    var elem(var& x, const Val& m, int i)
    {
        if (m.o->k == Obj::MAP) return x[var(m.o->key[i].c_str())];
        return x[i];
    }

    void byValue(var v, const Val& m)
    {
        // The callee changes what it was given
        if (m.o->k == Obj::MAP) v[var(m.o->key[0].c_str())] = 70;
        else v[0] = 70;
        v = nil;
    }
    var passThrough(var v) { return v; }

    void histories(int nv, int depth, int nInit)
    {
        var x[3];
        Val m[3];
        const char* nm[] = { "x", "y", "z" };
        int init = mc::choose(nInit);
        x[0] = fresh(init == 1 ? 3 : 2, m[0]);
        if (init != 1) x[1] = fresh(3, m[1]);
        MC_NOTE("x = %s; y = %s", show(m[0]).c_str(), show(m[1]).c_str());
        for (int d=0; d<depth; d++)
        {
            // Everything that can be done now
            struct Op { int o, a, b, i, j; };
            static thread_local std::vector<Op> ops;
            ops.clear();
            enum { FRESH, ASSIGN, COPY, GET, SET, SETFRESH, SETGET, PUSH,
                   CLEAR, POP, NESTED, LOCAL, MOVE, CALL, PASS, PUSHGET,
                   ELEMCLEAR, REMOVE, MAPSET, INSERT };
            for (int a=0; a<nv; a++)
            {
                bool ix = indexable(m[a]);
                for (int k=0; k<NFRESH; k++) ops.push_back({FRESH, a, k, 0, 0});
                if (ix)
                {
                    int n = m[a].o->v.size();
                    for (int i=0; i<n; i++)
                    {
                        for (int k=0; k<3; k++)
                            if (m[a].o->k != Obj::INTS || k == 0)
                                ops.push_back({SETFRESH, a, k, i, 0});
                        if (m[a].o->k != Obj::INTS)
                            ops.push_back({ELEMCLEAR, a, 0, i, 0});
                        if (indexable(m[a].o->v[i]))
                            for (size_t j=0; j<m[a].o->v[i].o->v.size(); j++)
                                ops.push_back({NESTED, a, 0, i, (int)j});
                    }
                    ops.push_back({LOCAL, a, 0, 0, 0});
                    ops.push_back({CALL, a, 0, 0, 0});
                    ops.push_back({REMOVE, a, 0, 0, 0});
                    if (m[a].o->k != Obj::INTS || n > 1)
                        ops.push_back({POP, a, 0, 0, 0});
                }
                if (m[a].k != Val::NIL) ops.push_back({CLEAR, a, 0, 0, 0});
                for (int b=0; b<nv; b++)
                {
                    ops.push_back({ASSIGN, a, b, 0, 0});
                    ops.push_back({PASS, a, b, 0, 0});
                    if (m[b].k == Val::OBJ) ops.push_back({COPY, a, b, 0, 0});
                    if (a != b) ops.push_back({MOVE, a, b, 0, 0});
                    if (indexable(m[b]))
                        for (size_t j=0; j<m[b].o->v.size(); j++)
                            ops.push_back({GET, a, b, 0, (int)j});
                    // Into a: must fit, and not make a cycle
                    bool fits = m[a].k != Val::OBJ ? false
                        : m[a].o->k == Obj::STR ? false
                        : m[a].o->k == Obj::INTS ? m[b].k == Val::INT
                        : !reaches(m[b], m[a].o.get());
                    if (ix && fits)
                        for (size_t i=0; i<m[a].o->v.size(); i++)
                            ops.push_back({SET, a, b, (int)i, 0});
                    if (m[a].k == Val::OBJ && fits && m[a].o->k == Obj::MAP)
                        ops.push_back({MAPSET, a, b, 0, 0});
                    if ((m[a].k == Val::OBJ && fits && m[a].o->k != Obj::MAP) ||
                        (m[a].k == Val::NIL && m[b].k != Val::NIL) ||
                        (m[a].k == Val::INT && m[b].k == Val::INT))
                    {
                        ops.push_back({PUSH, a, b, 0, 0});
                        if (m[a].k == Val::OBJ && m[a].o->k == Obj::VARS)
                            ops.push_back({INSERT, a, b, 0, 0});
                    }
                    if (ix && indexable(m[b]))
                        for (size_t j=0; j<m[b].o->v.size(); j++)
                        {
                            Val& e = m[b].o->v[j];
                            bool f = m[a].o->k == Obj::INTS ? e.k == Val::INT
                                : !reaches(e, m[a].o.get());
                            if (!f) continue;
                            for (size_t i=0; i<m[a].o->v.size(); i++)
                                ops.push_back({SETGET, a, b, (int)i, (int)j});
                            if (m[a].o->k != Obj::MAP)
                                ops.push_back({PUSHGET, a, b, 0, (int)j});
                        }
                }
            }
            Op op = ops[mc::choose(ops.size())];
            int a = op.a, b = op.b;
            std::string w;
            auto setModel = [&](Val& v, Val e) { v = e; };
            auto pushModel = [&](int a, Val e) {
                Val& t = m[a];
                if (t.k == Val::OBJ) t.o->v.push_back(e);
                else if (t.k == Val::NIL && e.k == Val::INT) t = e;
                else
                {
                    auto o = mk(t.k == Val::INT ? Obj::INTS : Obj::VARS);
                    if (t.k == Val::INT) o->v.push_back(t);
                    o->v.push_back(e);
                    t = Val(o);
                }
            };
            switch (op.o)
            {
            case FRESH:
            {
                Val v; var f = fresh(b, v);
                MC_NOTE("%s = %s", nm[a], show(v).c_str());
                x[a] = f; m[a] = v;
                break;
            }
            case ASSIGN:
                MC_NOTE("%s = %s", nm[a], nm[b]);
                x[a] = x[b]; { Val t = m[b]; m[a] = t; }
                break;
            case PASS:
                MC_NOTE("%s = f(%s)", nm[a], nm[b]);
                x[a] = passThrough(x[b]); { Val t = m[b]; m[a] = t; }
                break;
            case COPY:
            {
                MC_NOTE("%s = %s.copy()", nm[a], nm[b]);
                x[a] = x[b].copy();
                auto o = std::make_shared<Obj>(*m[b].o);
                m[a] = Val(o);
                break;
            }
            case GET:
            {
                MC_NOTE("%s = %s[%d]", nm[a], nm[b], op.j);
                x[a] = elem(x[b], m[b], op.j);
                Val e = m[b].o->v[op.j];
                m[a] = e;
                break;
            }
            case SET:
            {
                MC_NOTE("%s[%d] = %s", nm[a], op.i, nm[b]);
                elem(x[a], m[a], op.i) = x[b];
                Val e = m[b];
                m[a].o->v[op.i] = e;
                break;
            }
            case SETFRESH:
            {
                Val v; var f = fresh(b, v);
                MC_NOTE("%s[%d] = %s", nm[a], op.i, show(v).c_str());
                elem(x[a], m[a], op.i) = f;
                m[a].o->v[op.i] = v;
                break;
            }
            case SETGET:
            {
                MC_NOTE("%s[%d] = %s[%d]", nm[a], op.i, nm[b], op.j);
                elem(x[a], m[a], op.i) = elem(x[b], m[b], op.j);
                Val e = m[b].o->v[op.j];
                m[a].o->v[op.i] = e;
                break;
            }
            case PUSH:
                MC_NOTE("%s.push(%s)", nm[a], nm[b]);
                x[a].push(x[b]);
                { Val e = m[b]; pushModel(a, e); }
                break;
            case PUSHGET:
            {
                MC_NOTE("%s.push(%s[%d])", nm[a], nm[b], op.j);
                Val e = m[b].o->v[op.j];
                x[a].push(elem(x[b], m[b], op.j));
                pushModel(a, e);
                break;
            }
            case INSERT:
            {
                MC_NOTE("%s.insert(%s)", nm[a], nm[b]);
                Val e = m[b];
                x[a].insert(x[b]);
                m[a].o->v.insert(m[a].o->v.begin(), e);
                break;
            }
            case CLEAR:
                MC_NOTE("%s.clear()", nm[a]);
                x[a].clear(); m[a] = Val();
                break;
            case ELEMCLEAR:
                MC_NOTE("%s[%d].clear()", nm[a], op.i);
                elem(x[a], m[a], op.i).clear();
                m[a].o->v[op.i] = Val();
                break;
            case POP:
            {
                MC_NOTE("%s.pop()", nm[a]);
                Val e = m[a].o->v.back();
                std::string s = ref::show(x[a].pop());
                m[a].o->v.pop_back();
                if (m[a].o->k == Obj::MAP) m[a].o->key.pop_back();
                MC_CHECK(s == show(e), "pop", "pop() returned %s", s.c_str());
                break;
            }
            case REMOVE:
            {
                MC_NOTE("%s.remove(0)", nm[a]);
                Val e = m[a].o->v[0];
                std::string s = ref::show(x[a].remove(0));
                m[a].o->v.erase(m[a].o->v.begin());
                if (m[a].o->k == Obj::MAP) m[a].o->key.erase(m[a].o->key.begin());
                MC_CHECK(s == show(e), "remove", "remove(0) returned %s", s.c_str());
                break;
            }
            case NESTED:
            {
                MC_NOTE("%s[%d][%d] = 60", nm[a], op.i, op.j);
                Val& e = m[a].o->v[op.i];
                if (e.o->k == Obj::MAP)
                    elem(x[a], m[a], op.i)[var(e.o->key[op.j].c_str())] = 60;
                else
                    elem(x[a], m[a], op.i)[op.j] = 60;
                e.o->v[op.j] = Val(60);
                break;
            }
            case LOCAL:
            {
                // Another holder, gone at the end of its scope
                MC_NOTE("{ var t = %s; t[0] = 50; t = nil; }", nm[a]);
                {
                    var t = x[a];
                    elem(t, m[a], 0) = 50;
                    var u = t;
                    t = nil;
                }
                m[a].o->v[0] = Val(50);
                break;
            }
            case CALL:
            {
                MC_NOTE("f(%s)", nm[a]);
                byValue(x[a], m[a]);
                m[a].o->v[0] = Val(70);
                break;
            }
            case MOVE:
            {
                MC_NOTE("t = move(%s); %s = %s; %s = move(t)", nm[a], nm[a], nm[b], nm[b]);
                var t(std::move(x[a]));
                x[a] = x[b];
                x[b] = std::move(t);
                std::swap(m[a], m[b]);
                break;
            }
            case MAPSET:
            {
                // A new, or existing, key
                MC_NOTE("%s[\"m\"] = %s", nm[a], nm[b]);
                Val e = m[b];
                x[a]["m"] = x[b];
                size_t p = 0;
                Obj& o = *m[a].o;
                while (p < o.key.size() && o.key[p] < "m") p++;
                if (p < o.key.size() && o.key[p] == "m") o.v[p] = e;
                else
                {
                    o.key.insert(o.key.begin()+p, "m");
                    o.v.insert(o.v.begin()+p, e);
                }
                break;
            }
            }
            mc::step();
            if (!mc::fresh()) continue;
            std::string h;
            for (int a=0; a<nv; a++)
            {
                std::string s = ref::show(x[a]), e = show(m[a]);
                MC_CHECK(s == e, "value", "%s is %s, should be %s", nm[a],
                         s.c_str(), e.c_str());
                h += s + "\n";
            }
            // Identity
            for (int a=0; a<nv; a++)
                for (int b=a+1; b<nv; b++)
                    if (m[a].k == Val::OBJ && m[b].k == Val::OBJ)
                    {
                        bool e = m[a].o == m[b].o;
                        if (m[a].o->k == Obj::STR ? !m[a].o->s.size() : !m[a].o->v.size())
                            continue;
                        MC_CHECK(x[a].is(x[b]) == e, "shared",
                                 "%s and %s are%s shared", nm[a], nm[b], e ? " not" : "");
                        h += e ? "=" : "/";
                    }
            mc::state(h);
        }
    }
}

namespace
{
    // Copies of arrays and views of every type and size
    void copies(int maxn)
    {
        int t = mc::range(TYPE_CHAR, TYPE_PAIR), n = mc::range(0, maxn), how = mc::choose(4);
        auto val = [&](int i) { return t == TYPE_CHAR ? cd('a' + i) : t == TYPE_LONG ? cd((i + 1) * 10000000000.0) : t >= TYPE_CFLOAT ? cd(i + 1, -i) : cd(i + 1); };
        var a;
        if (t == TYPE_VAR) { a.resize(n); for (int i=0; i<n; i++) if (i % 2) a[i] = "s"; else a[i] = i; }
        else if (t == TYPE_PAIR) { a["k"] = 0; a.remove(0); for (int i=0; i<n; i++) a[var(i)] = i * 10; }
        else { std::vector<cd> v; for (int i=0; i<n; i++) v.push_back(val(i)); a = ref::array(t, v); }
        if (how && t == TYPE_PAIR) mc::prune();
        var b;
        switch (how)
        {
        case 0: b = a; break;
        case 1: b = a.view({ n }); break;
        case 2: if (n < 2) mc::prune(); b = a.view({ 1, n - 1 }, 1); break;
        case 3: if (n < 2) mc::prune(); b = a.view({ n / 2, 1 }, n - n / 2); break;
        }
        std::string was = ref::show(a), bwas = ref::show(b);
        mc::step();
        var c = b.copy(), z = b.copy(true);
        MC_CHECK(ref::show(c) == bwas, "copy", "a copy of %s is %s", bwas.c_str(), ref::show(c).c_str());
        MC_CHECK((!n && !c.size()) || !c.is(a), "copy", "a copy of %s is not another", bwas.c_str());
        if (t != TYPE_PAIR)
            MC_CHECK(z.size() == b.size() && z.dim() == b.dim() && (long)z.atype() == (long)b.atype() && !z.is(a), "copy", "an empty copy of %s has size %d", bwas.c_str(), z.size());
        // Changes are not seen through the other
        auto other = [&](int i) { return t == TYPE_VAR || t == TYPE_PAIR ? var(i + 77) : ref::scalar(t, val(i + 5)); };
        for (int i=0; i<c.size(); i++)
        {
            c.at(i) = other(i);
            MC_CHECK(ref::show(a) == was && ref::show(b) == bwas, "copy", "a change of the copy of %s makes it %s", bwas.c_str(), ref::show(b).c_str());
        }
        std::string cwas = ref::show(c);
        for (int i=0; i<b.size(); i++) b.at(i) = other(i + 1);
        MC_CHECK(ref::show(c) == cwas, "copy", "a change of %s makes its copy %s", bwas.c_str(), ref::show(c).c_str());
        mc::state(was + bwas);
    }
}

int main(int argc, char** argv)
{
    mc::add("three-variables", []{ histories(3, 3, mc::thorough() ? 2 : 1); }, mc::LEAK);
    mc::add("two-variables", []{ histories(2, mc::thorough() ? 4 : 3, 2); }, mc::LEAK);
    mc::add("copies", []{ copies(mc::thorough() ? 20 : 6); }, mc::LEAK);
    mc::add("sizes", big::copies);
    mc::bound("operations_three_variables", 3);
    mc::bound("operations_two_variables", mc::thorough() ? 4 : 3);
    return mc::run(argc, argv, "C03", "model_checking", {
        "no cycles are made (reference counting cannot release them)",
        "allocation succeeds" });
}
