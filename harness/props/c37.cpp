// C37: construction: what is written is what is had.
#include "arr.h"
#include <cstring>
#include <map>
using namespace libube;
using namespace ref;

namespace
{
    std::string show(const var& v) { return ref::show(v); }
    void same(const var& v, const std::string& want, const char* how, const std::string& what)
    {
        mc::step();
        std::string g = show(v);
        MC_CHECK(g == want, how, "%s gives %s, should be %s", what.c_str(), g.c_str(), want.c_str());
    }

    // Single values keep every bit
    template<class T> void one(T x, int t)
    {
        mc::step();
        var v(x), w, a = v.copy(), h = {"x", v};
        w = v;
        for (var* p : { &v, &w, &a })
        {
            MC_CHECK((long)p->type() == (t == TYPE_CDOUBLE ? TYPE_ARRAY : t), "type", "a %s is %s", tname(t), show(*p).c_str());
            T y = p->get<T>(), z = p->cast<T>();
            MC_CHECK(!memcmp(&y, &x, sizeof x) && !memcmp(&z, &x, sizeof x), "value", "a %s has become %s", tname(t), show(*p).c_str());
            MC_CHECK(p->size() == 1 && p->defined() && (long)p->atype() == t, "type", "a %s is %s", tname(t), show(*p).c_str());
        }
        T y = h[1].get<T>();
        MC_CHECK(!memcmp(&y, &x, sizeof x), "value", "a %s has become %s", tname(t), show(h[1]).c_str());
        T* q = v.ptr<T>();
        MC_CHECK(!memcmp(q, &x, sizeof x), "value", "a %s has pointer to other than its value", tname(t));
        memset((void*)q, 0, sizeof x);
        y = a.get<T>();
        MC_CHECK(!memcmp(&y, &x, sizeof x), "copied", "the copy of a %s has become %s", tname(t), show(a).c_str());
    }
    void singles()
    {
        static const int is[] = { 0, 1, -1, 255, 256, -256, 65536, 2147483647, -2147483647 - 1, 1 << 30 };
        static const long ls[] = { 0, 1, -1, 4294967295L, 4294967296L, -4294967296L, 9223372036854775807L, -9223372036854775807L - 1 };
        static const double ds[] = { 0.0, -0.0, 1.5, -1e300, 5e-324, 1.0/0.0, -1.0/0.0, 0.1, 16777217.0, 3.4028235677973366e38 };
        switch (mc::choose(7))
        {
        case 0: one((char)mc::range(-128, 127), TYPE_CHAR); break;
        case 1: one(mc::pick(is), TYPE_INT); break;
        case 2: one(mc::pick(ls), TYPE_LONG); break;
        case 3: one((float)mc::pick(ds), TYPE_FLOAT); break;
        case 4: one(mc::pick(ds), TYPE_DOUBLE); break;
        case 5: { float r = mc::pick(ds), i = mc::pick(ds); one(cfloat(r, i), TYPE_CFLOAT); break; }
        case 6: { double r = mc::pick(ds), i = mc::pick(ds); one(cdouble(r, i), TYPE_CDOUBLE); break; }
        }
    }

    // A buffer of exactly the size, so that AddressSanitizer guards it
    template<class T> struct Buf
    {
        T* p;
        int n;
        Buf(const std::vector<T>& v) : p((T*)malloc(v.size() * sizeof(T) + !v.size())), n(v.size())
        { for (int i=0; i<n; i++) new (p + i) T(v[i]); }
        void spoil() { memset((void*)p, 'Z', n * sizeof(T)); }
        ~Buf() { free((void*)p); }
    };
    Buf<char> buf(const std::string& s, bool nul)
    {
        std::vector<char> v(s.begin(), s.end());
        if (nul) v.push_back(0);
        return Buf<char>(v);
    }

    void string(const std::string& s)
    {
        MC_NOTE("%s", mc::quote(s).c_str());
        bool hasNul = s.find('\0') != std::string::npos;
        for (int how=0; how<5; how++)
        {
            if (hasNul && (how == 0 || how == 3)) continue;
            auto b = buf(s, how == 0 || how == 3);
            var v;
            switch (how)
            {
            case 0: v = var((const char*)b.p); break;
            case 1: v = var((int)s.size(), (const char*)b.p); break;
            case 2: v.append<char>(s.size(), b.p); break;
            case 3: v.append((const char*)b.p); break;
            case 4: v = var(0, ""); v.append<char>(s.size(), b.p); break;
            }
            b.spoil();
            mc::step();
            MC_CHECK(v.defined() && (long)v.type() == TYPE_ARRAY && (long)v.atype() == TYPE_CHAR && v.size() == (int)s.size() &&
                     strOf(v) == s, "string", "%s, by %d, becomes %s", mc::quote(s).c_str(), how, show(v).c_str());
            MC_CHECK(!memcmp(v.str(), s.c_str(), s.size() + 1), "terminated", "%s, by %d, is not terminated", mc::quote(s).c_str(), how);
            // The length that C sees, as long as it is a C string
            MC_CHECK(hasNul || strlen(v.str()) == s.size(), "terminated", "%s, by %d", mc::quote(s).c_str(), how);
            MC_CHECK((long)v.len() >= 0 || true, "len", "%s", "");
            MC_CHECK(v == var((int)s.size(), s.c_str()), "equal", "%s", mc::quote(s).c_str());
        }
        mc::state(s);
    }
    void strings(int maxn)
    {
        static const char a[] = { 'a', '"', 0, 1, '\xff', '\\' };
        int n = mc::range(0, maxn);
        std::string s;
        for (int i=0; i<n; i++) s += mc::pick(a);
        string(s);
    }
    void lengths(int maxn)
    {
        int n = mc::range(0, maxn);
        std::string s;
        for (int i=0; i<n; i++) s += 'a' + i % 26;
        string(s);
    }

    // Lists of strings
    void lists(int maxn)
    {
        static const char* a[] = { "", "x", "a longer one that does not fit" };
        int n = mc::range(0, maxn);
        std::vector<const char*> l;
        std::vector<std::string> s;
        std::string want = "[";
        for (int i=0; i<n; i++)
        {
            s.push_back(mc::pick(a));
            want += (i ? ", " : "") + mc::quote(s.back());
        }
        want = n ? want + "]" : "nil";
        for (int how=0; how<2; how++)
        {
            std::vector<std::string> t = s;
            l.clear();
            for (auto& x : t) l.push_back(x.c_str());
            if (how) l.push_back(0);
            Buf<const char*> b(l);
            var v = how ? var((const char* const*)b.p) : var(n, (const char* const*)b.p);
            b.spoil();
            for (auto& x : t) for (auto& c : x) c = 'Z';
            same(v, want, "list", "a list of strings");
            // They are independent of each other
            for (int i=0; i<n; i++)
            {
                v[i].push('!');
                for (int j=0; j<n; j++)
                    MC_CHECK(strOf(v[j]) == s[j] + (j <= i ? "!" : ""), "shared", "after a change of %d, %d of %s", i, j, show(v).c_str());
            }
        }
        mc::state(want);
    }

    // Arrays of a typed buffer, and appending to whatever there is
    template<class T> void typed(int t, int maxn, const std::vector<T>& alpha)
    {
        int was = mc::choose(9), n = mc::range(0, maxn), m = mc::range(1, maxn);
        std::vector<T> x;
        std::vector<cd> have, all;
        for (int i=0; i<n; i++) x.push_back(alpha[i % alpha.size()]);
        Buf<T> b(x);
        var v, keep;
        bool ok = true, single = false;
        for (int i=0; i<m; i++) have.push_back(as(t, cd(50 + i)));
        switch (was)
        {
        case 0: have.clear(); break;
        case 1: v = ref::array(t, have); break;
        case 2: single = true; have.resize(1); v = scalar(t, have[0]); break;
        case 3: have.clear(); v = ref::array(t, { 1, 2 }); v.resize(0); break;
        case 4: v = ref::array(t == TYPE_INT ? TYPE_LONG : TYPE_INT, have); ok = false; break;
        case 5: v = "a"; v.clear(); v.array(); v.resize(1); ok = false; break;
        case 6: v["k"] = 1; ok = false; break;
        case 7: v = ref::array(t, have).view({m}); ok = false; break;
        case 8: v = scalar(t == TYPE_INT ? TYPE_LONG : TYPE_INT, 1); ok = false; break;
        }
        keep = v;
        std::string before = show(v);
        // A view can't change size; whether nothing can be appended is open
        if (was == 7 && n == 0) mc::prune();
        mc::step();
        bool threw = throws([&]{ v.template append<T>(n, b.p); });
        b.spoil();
        MC_CHECK(threw == !ok, "append", "append of %d to %s %s", n, before.c_str(), threw ? "throws" : "does not throw");
        if (threw)
        {
            MC_CHECK(show(v) == before, "changed", "append() that throws changes %s to %s", before.c_str(), show(v).c_str());
            return;
        }
        all = have;
        for (auto& c : x) all.push_back(as(t, cd(c)));
        MC_CHECK(show(v) == show(ref::array(t, all)) || (!all.size() && v.defined() && (long)v.atype() == t && !v.size()), "append",
                     "append of %d to %s gives %s", n, before.c_str(), show(v).c_str());
        if (was == 1 || was == 3)
            MC_CHECK(keep.is(v) && show(keep) == show(v), "shared", "append() to %s is not seen by the other", before.c_str());
        (void)single;
        mc::state(before + std::to_string(n));
    }
    void appends(int maxn)
    {
        switch (mc::choose(3))
        {
        case 0: typed<char>(TYPE_CHAR, maxn, { 'a', '\0', 'c' }); break;
        case 1: typed<int>(TYPE_INT, maxn, { -1, 2147483647, 7 }); break;
        case 2: typed<cdouble>(TYPE_CDOUBLE, maxn, { cdouble(1, -1), cdouble(0, 2), cdouble(-3, 0) }); break;
        }
    }
    // Appending part of an array to itself
    void itself(int maxn)
    {
        int t = mc::choose(4), n = mc::range(1, maxn), o = mc::choose(n), m = mc::range(0, n - o);
        std::vector<cd> c;
        for (int i=0; i<n; i++) c.push_back(cd('a' + i % 26));
        var v = ref::array(t == 0 || t == 3 ? TYPE_CHAR : t == 1 ? TYPE_INT : TYPE_CDOUBLE, c);
        mc::step();
        switch (t)
        {
        case 0: v.append<char>(m, v.ptr<char>(o)); break;
        case 1: v.append<int>(m, v.ptr<int>(o)); break;
        case 2: v.append<cdouble>(m, v.ptr<cdouble>(o)); break;
        case 3: v.append(v.str() + o); m = n - o; break;
        }
        for (int i=0; i<m; i++) c.push_back(c[o+i]);
        same(v, show(ref::array(t == 0 || t == 3 ? TYPE_CHAR : t == 1 ? TYPE_INT : TYPE_CDOUBLE, c)), "itself",
             "append of " + std::to_string(m) + " at " + std::to_string(o) + " of the same array of " + std::to_string(n));
        mc::state(show(v));
    }
    void ints(int maxn)
    {
        static const int a[] = { 0, -1, 2147483647 };
        int n = mc::range(0, maxn);
        std::vector<int> x;
        std::vector<cd> c;
        for (int i=0; i<n; i++) { x.push_back(mc::pick(a)); c.push_back(cd(x.back())); }
        Buf<int> b(x);
        var v(n, (const int*)b.p);
        b.spoil();
        same(v, show(ref::array(TYPE_INT, c)), "ints", "an array of int");
        mc::state(show(v));
    }

    /*
     * Values of all kinds, for lists.  Numbers convert exactly to the types
     * of the others.
     */
    enum { CHAR, INT, INT2, LONG, FLOAT, DOUBLE, CFLOAT, CDOUBLE, NIL, STRING, EMPTY, ARRAY, MAP, VIEW, LIST, KINDS };
    var value(int k)
    {
        var v;
        switch (k)
        {
        case CHAR: return 'c';
        case INT: return 5;
        case INT2: return 6;
        case LONG: return 7L;
        case FLOAT: return 8.0f;
        case DOUBLE: return 9.0;
        case CFLOAT: return cfloat(10, 0);
        case CDOUBLE: return cdouble(11, 1);
        case NIL: return v;
        case STRING: return "str";
        case EMPTY: return "";
        case ARRAY: { int a[] = { 1, 2 }; return var(2, a); }
        case MAP: v["k"] = 1; return v;
        case VIEW: { int a[] = { 1, 2, 3 }; var b(3, a); return b.view({ 1, 2 }, 1); }
        case LIST: v.push("l"); v.push(1); return v;
        }
        return v;
    }
    int typeOf(int k)
    {
        static const int t[] = { TYPE_CHAR, TYPE_INT, TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT };
        return k <= CFLOAT ? t[k] : -1;
    }
    // Initialiser lists
    void initialisers(int maxn, int kinds)
    {
        int n = mc::range(0, maxn);
        std::vector<int> k;
        var x[5];
        for (int i=0; i<n; i++)
        {
            k.push_back(mc::choose(kinds));
            // Once is enough
            x[i] = value(k[i]);
        }
        std::string name = "{";
        for (int i=0; i<n; i++) name += (i ? ", " : " ") + show(x[i]);
        name += " }";
        MC_NOTE("%s", name.c_str());
        // Numbers make an array of the type of the first; anything else first
        // makes an array of anything
        bool ok = true;
        std::string want;
        int t = n ? typeOf(k[0]) : -1;
        if (n == 0) want = "nil";
        else if (t >= 0)
        {
            std::vector<cd> c;
            for (int i=0; i<n; i++)
            {
                int u = typeOf(k[i]);
                if (i == 1 && u != t) ok = false;
                cd y = num(x[i]);
                if (i > 1 && (u < 0 || u != t))
                {
                    // Whether and to what it can be cast is for C05
                    var z = scalar(t, 0), w = ref::array(t, { 0, 0 });
                    if (throws([&]{ w.at(1) = x[i]; })) ok = false;
                    else y = num(w.at(1));
                    if (ok && u >= 0 && u < TYPE_CFLOAT) MC_CHECK(y == as(t, num(x[i])), "list", "%s as %s is %s", show(x[i]).c_str(), tname(t), fmt(y).c_str());
                }
                if (ok) c.push_back(as(t, y));
            }
            if (ok) want = n == 1 ? show(x[0]) : show(ref::array(t, c));
        }
        else
        {
            want = "[";
            for (int i=0; i<n; i++) want += (i ? ", " : "") + show(x[i]);
            want += "]";
        }
        var v;
        mc::step();
        bool threw = throws([&]{
            switch (n)
            {
            case 0: v = std::initializer_list<var>({}); break;
            case 1: v = std::initializer_list<var>({ x[0] }); break;
            case 2: v = { x[0], x[1] }; break;
            case 3: v = { x[0], x[1], x[2] }; break;
            case 4: v = { x[0], x[1], x[2], x[3] }; break;
            case 5: v = { x[0], x[1], x[2], x[3], x[4] }; break;
            }
        });
        MC_CHECK(threw == !ok, "list", "%s %s", name.c_str(), threw ? "throws" : "does not throw");
        if (threw) return;
        MC_CHECK(show(v) == want, "list", "%s gives %s, should be %s", name.c_str(), show(v).c_str(), want.c_str());
        mc::state(name);
        if (t >= 0 || !n) return;
        // Arrays are shared, numbers are not
        for (int i=0; i<n; i++)
        {
            bool arr = x[i].defined() && (long)x[i].type() == TYPE_ARRAY;
            var e = v[i];
            if (x[i].size() || !arr) MC_CHECK(x[i].is(e) == arr, "shared", "%s: element %d is%s what it was", name.c_str(), i, arr ? " not" : "");
            v[i] = 99;
            if (i == 0) want = show(x[0]);
        }
        for (int i=0; i<n; i++) MC_CHECK(show(x[i]) == show(value(k[i])), "changed", "%s: %s has changed", name.c_str(), show(x[i]).c_str());
    }

    // A value, so many times
    void repeated(int maxn)
    {
        int k = mc::choose(KINDS), n = mc::range(0, maxn), how = mc::choose(3);
        var x = value(k), h = {"h", x}, one = {3, 4, 5};
        var y;
        switch (how)
        {
        case 0: y = x; break;
        case 1: break;
        case 2: if (k != INT) mc::prune(); break;
        }
        std::string name = std::to_string(n) + " times " + show(x);
        bool ok = typeOf(k) >= 0 || k == CDOUBLE, threw;
        var v;
        mc::step();
        MC_NOTE("%s, %d", name.c_str(), how);
        threw = throws([&]{ v = how == 0 ? var(n, y) : how == 1 ? var(n, h[1]) : var(n, one[2]); });
        MC_CHECK(threw == !ok, "repeated", "%s %s", name.c_str(), threw ? "throws" : "does not throw");
        if (threw) { MC_CHECK(!v.defined(), "repeated", "%s", name.c_str()); return; }
        int t = k == CDOUBLE ? TYPE_CDOUBLE : typeOf(k);
        std::vector<cd> c(n, num(x));
        MC_CHECK(v.size() == n, "repeated", "%s gives %s", name.c_str(), show(v).c_str());
        for (int i=0; i<n; i++) MC_CHECK(num(v.at(i)) == num(x), "repeated", "%s gives %s", name.c_str(), show(v).c_str());
        if (n != 1) MC_CHECK(v.defined() && (long)v.atype() == t && (long)v.type() == TYPE_ARRAY, "repeated", "%s gives %s", name.c_str(), show(v).c_str());
        // None is another
        for (int i=0; i<n; i++)
        {
            v[i] = scalar(t, cd(20 + i));
            for (int j=0; j<n; j++)
                MC_CHECK(num(v.at(j)) == (j <= i ? as(t, cd(20 + j)) : num(x)), "repeated", "%s: after a change of %d, %s", name.c_str(), i, show(v).c_str());
        }
        MC_CHECK(show(x) == show(value(k)), "changed", "%s: it becomes %s", name.c_str(), show(x).c_str());
        mc::state(name);
    }

    // A shape full of a value
    void filled(int maxd, int maxn)
    {
        static std::map<std::pair<int, int>, std::vector<Shape>> cache;
        auto& all = cache[{ maxd, maxn }];
        if (all.empty()) { all = shapes(1, maxd, 0, maxn); all.push_back({ -1 }); all.push_back({ 2, -1 }); all.push_back({ 65536, 65536 }); }
        const Shape& s = mc::pick(all);
        int k = mc::choose(CDOUBLE + 1);
        var x = value(k);
        bool ok = true;
        for (int i : s) if (i < 0 || i > 100) ok = false;
        std::string name = "({" + str(s) + "}, " + show(x) + ")";
        MC_NOTE("%s", name.c_str());
        var v;
        mc::step();
        bool threw = throws([&]{
            switch (s.size())
            {
            case 1: v = var(std::initializer_list<int>({ s[0] }), x); break;
            case 2: v = var(std::initializer_list<int>({ s[0], s[1] }), x); break;
            case 3: v = var(std::initializer_list<int>({ s[0], s[1], s[2] }), x); break;
            case 4: v = var(std::initializer_list<int>({ s[0], s[1], s[2], s[3] }), x); break;
            }
        });
        MC_CHECK(threw == !ok, "filled", "%s %s", name.c_str(), threw ? "throws" : "does not throw");
        if (threw) return;
        int t = k == CDOUBLE ? TYPE_CDOUBLE : typeOf(k), n = prod(s);
        MC_CHECK(v.view() && shaped(v, s) && v.size() == n && (long)v.atype() == t && v.offset() == 0, "filled", "%s gives %s", name.c_str(), show(v).c_str());
        for (int i=0; i<n; i++) MC_CHECK(num(v.at(i)) == num(x), "filled", "%s gives %s", name.c_str(), show(v).c_str());
        for (int i=0; i<n; i++)
        {
            v.at(i) = scalar(t, cd(20 + i));
            for (int j=0; j<n; j++)
                MC_CHECK(num(v.at(j)) == (j <= i ? as(t, cd(20 + j)) : num(x)), "filled", "%s: after a change of %d, %s", name.c_str(), i, show(v).c_str());
        }
        MC_CHECK(show(x) == show(value(k)), "changed", "%s: it becomes %s", name.c_str(), show(x).c_str());
        mc::state(name);
    }

    // The comma operator appends
    void commas(int maxn)
    {
        int k = mc::choose(KINDS), n = mc::range(1, maxn);
        var a = value(k), b = value(k);
        std::string name = show(a);
        for (int i=0; i<n; i++)
        {
            int j = mc::choose(KINDS);
            var x = value(j), r;
            name += ", " + show(x);
            MC_NOTE("%s", name.c_str());
            mc::step();
            bool t1 = throws([&]{ r = (a, x); }), t2 = throws([&]{ b.append(x); });
            MC_CHECK(t1 == t2, "comma", "%s %s", name.c_str(), t1 ? "throws" : "does not throw");
            MC_CHECK(show(a) == show(b), "comma", "%s gives %s, append() gives %s", name.c_str(), show(a).c_str(), show(b).c_str());
            if (t1) break;
            MC_CHECK(show(r) == show(a), "comma", "%s has value %s", name.c_str(), show(r).c_str());
        }
        mc::state(show(a));
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::bound("strings", th ? 7 : 5);
    mc::bound("initialisers", th ? 5 : 4);
    mc::add("singles", singles);
    mc::add("strings", [=]{ strings(th ? 7 : 5); });
    mc::add("lengths", [=]{ lengths(th ? 1100 : 300); });
    mc::add("lists", [=]{ lists(th ? 6 : 4); });
    mc::add("appends", [=]{ appends(th ? 40 : 18); });
    mc::add("itself", [=]{ itself(th ? 70 : 36); });
    mc::add("ints", [=]{ ints(th ? 9 : 7); });
    mc::add("initialisers", [=]{ initialisers(th ? 5 : 4, KINDS); });
    mc::add("repeated", [=]{ repeated(th ? 40 : 18); });
    mc::add("filled", [=]{ filled(4, th ? 4 : 3); });
    mc::add("commas", [=]{ commas(th ? 4 : 3); });
    mc::add("leaks", []{ initialisers(3, KINDS); }, mc::LEAK);
    mc::add("leaks lists", []{ lists(3); }, mc::LEAK);
    mc::add("leaks others", []{ switch (mc::choose(4)) { case 0: repeated(9); break; case 1: filled(2, 2); break; case 2: appends(9); break; case 3: commas(1); break; } }, mc::LEAK);
    return mc::run(argc, argv, "C37", "model_checking");
}
