// C09: views address exactly the elements that they say they do.
#include <climits>
#include "arr.h"
#include "bigops.h"
#include <lube/math.h>
#include <map>
using namespace ref;
using namespace libube;

namespace
{
    var mkview(var& base, const Shape& s, int off, bool list)
    {
        if (!list) return base.view(vshape(s), off);
        switch (s.size())
        {
        case 1: return base.view({ s[0] }, off);
        case 2: return base.view({ s[0], s[1] }, off);
        case 4: return base.view({ s[0], s[1], s[2], s[3] }, off);
        case 0: return base.view(std::initializer_list<int>(), off);
        }
        return base.view({ s[0], s[1], s[2] }, off);
    }
    var at(const var& v, const std::vector<int>& i)
    {
        switch (i.size())
        { case 1: return v(i[0]); case 2: return v(i[0], i[1]); }
        return v(i[0], i[1], i[2]);
    }

    const int types[] = { TYPE_FLOAT, TYPE_INT, TYPE_CDOUBLE, TYPE_VAR, TYPE_CHAR };
    cd val(int t, int i) { return t == TYPE_CHAR ? cd('a' + i) : t == TYPE_CDOUBLE ? cd(10 + i, -i) : cd(10 + i); }
    var elem(int t, int i) { return t == TYPE_VAR ? var(("s" + std::to_string(i)).c_str()) : ref::scalar(t, val(t, i)); }
    std::string text(int t, int i) { return ref::show(elem(t, i)); }
    var array(int t, int n)
    {
        var a;
        if (t == TYPE_VAR) { a.resize(n); for (int i=0; i<n; i++) a.at(i) = elem(t, i); return a; }
        std::vector<cd> v;
        for (int i=0; i<n; i++) v.push_back(val(t, i));
        return ref::array(t, v);
    }
    // What an element looks like (a single cdouble is an array when it is not
    // a reference)
    std::string look(const var& e)
    {
        if ((long)e.type() == TYPE_ARRAY && e.defined() && e.atype<cd>() && e.size() == 1)
            return "cdouble " + fmt(num(e));
        return ref::show(e);
    }
    std::string want(int t, int i) { return look(elem(t, i)); }

    // Check that v presents elements off.. of an array of type t, whose
    // element i is id[i]
    void check(const var& v, int t, const Shape& s, int off, const std::vector<int>& id,
               const std::string& what)
    {
        int n = prod(s), d = s.size();
        MC_CHECK(v.view(), "view", "%s is not a view", what.c_str());
        MC_CHECK(v.dim() == d && v.size() == n && v.offset() == off, "shape",
                 "%s: dim %d, size %d, offset %d", what.c_str(), v.dim(), v.size(), v.offset());
        int stride = n;
        var sh = v.shape();
        for (int i=0; i<d; i++)
        {
            stride = s[i] ? stride / s[i] : 0;
            MC_CHECK(v.shape(i) == s[i] && v.shape(i-d) == s[i] && sh.at(i) == s[i], "shape",
                     "%s: shape(%d) is %d", what.c_str(), i, v.shape(i));
            if (n) MC_CHECK(v.stride(i) == stride, "stride", "%s: stride(%d) is %d", what.c_str(), i, v.stride(i));
        }
        MC_CHECK(sh.size() == d, "shape", "%s: shape() is %s", what.c_str(), ref::show(sh).c_str());
        for (int i=0; i<n; i++)
        {
            std::vector<int> ix(d);
            for (int k=d-1, r=i; k>=0; k--) { ix[k] = r % s[k]; r /= s[k]; }
            std::string w = want(t, id[off+i]);
            std::string a = look(at(v, ix)), b = look(v.at(i)), c = look(v[i]);
            MC_CHECK(a == w && b == w && c == w, "element", "%s: element %d is %s, %s, %s; should be %s",
                     what.c_str(), i, a.c_str(), b.c_str(), c.c_str(), w.c_str());
        }
    }

    void construct(int maxn)
    {
        static const std::vector<Shape> all = [] {
            auto r = shapes(1, 3, 0, 3);
            r.push_back({-1}); r.push_back({2, -1}); r.push_back({-1, 2}); r.push_back({-1, -1});
            r.push_back({1 << 16, 1 << 16}); r.push_back({1 << 30, 4}); r.push_back({2, 1 << 30, 2}); r.push_back({7});
            // Sizes that overflow, also 64 bits
            r.push_back({1 << 16, 1 << 16, 1 << 16, 1 << 16}); r.push_back({1 << 30, 1 << 30, 16}); r.push_back({1, 1 << 30, 1 << 30, 1 << 4});
            r.push_back({INT_MAX}); r.push_back({INT_MAX, INT_MAX, INT_MAX}); r.push_back({INT_MIN, INT_MIN}); r.push_back({INT_MAX, -1}); r.push_back({});
            return r;
        }();
        int t = mc::pick(types), n = mc::range(1, maxn);
        const Shape& s = mc::pick(all);
        int off = mc::range(-1, n + 1);
        int how = mc::choose(3);
        var base = array(t, n);
        std::vector<int> id(n);
        for (int i=0; i<n; i++) id[i] = i;
        std::string what = "view " + str(s) + " at " + std::to_string(off) + " of " + ref::show(base);
        MC_NOTE("%s, how %d", what.c_str(), how);
        bool zero = false, neg = off < 0;
        __int128 p = 1;
        for (int i : s) { if (i == 0) zero = true; if (i < 0) neg = true; p *= i; }
        bool ok = s.size() && !neg && p + off <= n;
        int vo = off;
        var v;
        bool threw = ref::throws([&] {
            if (how == 2)
            {
                // View of a view
                var w = base.view({ n-1 }, 1);
                v = mkview(w, s, off - 1, true);
            }
            else v = mkview(base, s, off, how == 0);
        });
        mc::step();
        std::string now = ref::show(base);
        MC_CHECK(now == ref::show(array(t, n)), "base", "%s changed the array to %s", what.c_str(), now.c_str());
        MC_CHECK(threw == !ok, "bounds", "%s %s", what.c_str(), threw ? "throws" : "does not throw");
        if (threw) return;
        check(v, t, s, vo, id, what);
        mc::state(what);

        // Outside of the shape
        int d = s.size(), size = prod(s);
        if (size == 0) return;
        if (!mc::fresh()) return;
        for (int k=0; k<d; k++)
            for (int o : { -1, s[k], 1 << 30 })
            {
                std::vector<int> ix(d, 0);
                ix[k] = o;
                MC_CHECK(ref::throws([&] { at(v, ix); }), "index", "%s: index %d of dimension %d "
                         "does not throw", what.c_str(), o, k);
            }
        MC_CHECK(ref::throws([&] { v.at(-1); }) && ref::throws([&] { v.at(size); }), "index",
                 "%s: at() outside does not throw", what.c_str());
        MC_CHECK(ref::throws([&] { v[size] = v.at(0).copy(); }), "index", "%s: [] outside does not throw",
                 what.c_str());
        MC_CHECK(ref::throws([&] { v.push(elem(t, 0)); }) && ref::throws([&] { v.resize(size + 1); }) &&
                 ref::throws([&] { v.pop(); }), "resize", "%s can be resized", what.c_str());
        now = ref::show(base);
        MC_CHECK(now == ref::show(array(t, n)), "base", "%s: failed operations changed the array to %s",
                 what.c_str(), now.c_str());

        // Subviews
        for (int k=1; k<=d; k++)
        {
            Shape ss(s.end() - k, s.end());
            for (int so=-1; so<=n+1; so++)
            {
                bool sok = so + off >= 0 && so + off + prod(ss) <= n;
                var sv;
                bool t2 = ref::throws([&] { sv = v.subview(k, so); });
                MC_CHECK(t2 == !sok, "subview", "%s: subview(%d, %d) %s", what.c_str(), k, so,
                         t2 ? "throws" : "does not throw");
                if (sok) check(sv, t, ss, off + so, id, what + ", subview");
            }
        }
        MC_CHECK(ref::throws([&] { v.subview(0, 0); }), "subview", "%s: subview(0, 0)", what.c_str());

        // Write through each element in turn
        for (int i=0; i<size; i++)
        {
            v.at(i) = elem(t, (off + i + 1) % 7);
            id[off+i] = (off + i + 1) % 7;
            for (int j=0; j<n; j++)
                MC_CHECK(look(base.at(j)) == want(t, id[j]), "write", "%s: after writing element %d, "
                         "the array is %s", what.c_str(), i, ref::show(base).c_str());
        }
        for (int i=0; i<size; i++)
        {
            std::vector<int> ix(d);
            for (int k=d-1, r=i; k>=0; k--) { ix[k] = r % s[k]; r /= s[k]; }
            at(v, ix) = elem(t, i);
            id[off+i] = i;
        }
        check(v, t, s, off, id, what + ", after writing");
        for (int j=0; j<n; j++)
            MC_CHECK(look(base.at(j)) == want(t, id[j]), "write", "%s: after writing, the array is %s",
                     what.c_str(), ref::show(base).c_str());

        // Other offsets; copies are not affected
        var c = v.copy();
        for (int o : { -1, 0, 1, 2, n - size, n - size + 1, n, 2147483647, 2147483646, -2147483647 })
        {
            bool ook = o >= 0 && (long)o + size <= n;
            int was = v.offset();
            bool t3 = ref::throws([&] { v.offset(o); });
            MC_CHECK(t3 == !ook, "offset", "%s: offset(%d) %s", what.c_str(), o, t3 ? "throws" : "does not throw");
            check(v, t, s, ook ? o : was, id, what + ", moved");
        }
        v.offset(off);
        if (size + off < n)
        {
            v.advance(1);
            check(v, t, s, off + 1, id, what + ", advanced");
        }
        else
            MC_CHECK(ref::throws([&] { v.advance(1); }), "offset", "%s: advance(1)", what.c_str());
        check(c, t, s, off, id, what + ", copy");
        c.at(0) = elem(t, 6);
        for (int j=0; j<n; j++)
            MC_CHECK(look(base.at(j)) == want(t, id[j]), "copy", "%s: writing to a copy changed the array to %s",
                     what.c_str(), ref::show(base).c_str());

        // The view keeps the array alive; and the array can grow
        base.clear();
        v.offset(off);
        check(v, t, s, off, id, what + ", alone");
    }

    // New arrays
    void allocate()
    {
        static const std::vector<Shape> all = [] {
            auto r = shapes(1, 3, 0, 3);
            r.push_back({-1}); r.push_back({2, -1}); r.push_back({-1, -1});
            r.push_back({1 << 16, 1 << 16}); r.push_back({1 << 30, 4}); r.push_back({65536, 65537, 0});
            return r;
        }();
        static const int ts[] = { TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE, TYPE_INT, TYPE_LONG, TYPE_CHAR, -1 };
        const Shape& s = mc::pick(all);
        int t = mc::pick(ts), form = mc::choose(2);
        bool bad = false, zero = false;
        for (int i : s) { bad |= i < 0; zero |= i == 0; }
        if (s.size() && s[0] > 100) bad = true;
        MC_NOTE("view(%s) of %s, form %d", str(s).c_str(), t < 0 ? "nil" : tname(t), form);
        var v, sc = t < 0 ? nil : ref::scalar(t, 0);
        bool threw = ref::throws([&] {
            if (form) { v = libube::view(vshape(s), sc); return; }
            switch (s.size())
            {
            case 1: v = libube::view({ s[0] }, sc); break;
            case 2: v = libube::view({ s[0], s[1] }, sc); break;
            case 3: v = libube::view({ s[0], s[1], s[2] }, sc); break;
            }
        });
        mc::step();
        if (zero && threw && s[0] > 100) return;
        MC_CHECK(threw == bad, "allocate", "view(%s) %s", str(s).c_str(), threw ? "throws" : "does not throw");
        if (bad) return;
        int n = prod(s), wt = t < 0 ? TYPE_FLOAT : t;
        std::vector<int> id(n);
        for (int i=0; i<n; i++) { v.at(i) = ref::scalar(wt, val(wt, i)); id[i] = i; }
        MC_CHECK((int)(long)v.atype() == wt, "type", "view(%s) is %s", str(s).c_str(), ref::show(v).c_str());
        if (wt != TYPE_CHAR) check(v, wt, s, 0, id, "view(" + str(s) + ")");
        mc::state(str(s) + tname(wt));
    }

    // Assignment to a view of any shape and type of something of any other
    void assignment(int maxd, int maxn, int ntypes)
    {
        static std::map<std::pair<int, int>, std::vector<Shape>> cache;
        auto& all = cache[{ maxd, maxn }];
        if (all.empty()) all = shapes(1, maxd, 0, maxn);
        static const int ts[] = { TYPE_FLOAT, TYPE_VAR, TYPE_INT, TYPE_CHAR, TYPE_CDOUBLE, TYPE_LONG, TYPE_DOUBLE, TYPE_CFLOAT };
        int t = ts[mc::choose(ntypes)], u = mc::flip() ? t : ts[mc::choose(ntypes)], off = mc::choose(2);
        const Shape& s = mc::pick(all);
        // What to assign: an array, a view of another, a view of the same, a copy
        int what = mc::choose(4);
        const Shape& r = what == 0 ? all[0] : mc::pick(all);
        int n = prod(s) + off + 1, m = prod(r), ro = 0;
        var base = array(t, n), v = base.view(vshape(s), off), w, src;
        switch (what)
        {
        case 0: m = mc::range(0, maxn); src = w = array(u, m + 1); if (m == maxn) mc::prune(); m++; break;
        case 1: src = array(u, m + 3); ro = 2; w = src.view(vshape(r), 2); break;
        case 2:
            if (u != t) mc::prune();
            ro = mc::choose(3);
            if (m + ro > n) mc::prune();
            src = base; w = base.view(vshape(r), ro);
            break;
        case 3: src = array(u, m + 3); ro = 1; w = src.view(vshape(r), 1).copy(); break;
        }
        if (u == TYPE_CDOUBLE && what == 0 && m == 1) mc::prune();
        Shape ws = what == 0 ? Shape{ m } : r;
        std::vector<int> id(n);
        for (int i=0; i<n; i++) id[i] = i;
        std::string name = "view " + str(s) + " of " + ref::show(base) + " = " + ref::show(w);
        MC_NOTE("%s", name.c_str());
        bool through = t == u && s == ws;
        std::string wwas = ref::show(w);
        v = w;
        mc::step();
        std::vector<int> id2 = id;
        if (through) for (int i=0; i<m; i++) id2[off+i] = ro + i;
        for (int j=0; j<n; j++)
            MC_CHECK(look(base.at(j)) == want(t, id2[j]), "assign", "%s: the array becomes %s", name.c_str(), ref::show(base).c_str());
        if (through)
        {
            check(v, t, s, off, id2, name);
            if (what != 2) MC_CHECK(ref::show(w) == wwas, "assign", "%s: it becomes %s", name.c_str(), ref::show(w).c_str());
            if (m)
            {
                v.at(0) = elem(t, 6);
                MC_CHECK(look(base.at(off)) == want(t, 6), "assign", "%s: is not a view of the array any more", name.c_str());
            }
        }
        else
        {
            MC_CHECK(ref::show(v) == wwas && ref::show(w) == wwas, "assign", "%s: gives %s", name.c_str(), ref::show(v).c_str());
            MC_CHECK(!m || v.is(w), "assign", "%s: is not shared", name.c_str());
            MC_CHECK(v.offset() == w.offset(), "assign", "%s: offset %d", name.c_str(), (int)v.offset());
            if (m)
            {
                v.at(m-1) = elem(u, 6);
                if (what != 2) 
                    for (int j=0; j<n; j++)
                        MC_CHECK(look(base.at(j)) == want(t, id2[j]), "assign", "%s: the array becomes %s", name.c_str(), ref::show(base).c_str());
                else MC_CHECK(look(base.at(ro + m - 1)) == want(t, 6), "assign", "%s: is not a view of the same array", name.c_str());
            }
        }
        mc::state(name);
    }

    /*
     * Histories.  An array or a view is a shared object; assigning to a view
     * something of the same shape and type writes through it.
     */
    struct Base { std::vector<int> v; };
    struct Node { bool view; std::shared_ptr<Base> b; int off; Shape s; };
    typedef std::shared_ptr<Node> P;
    int size(const P& p) { return p->view ? prod(p->s) : p->b->v.size(); }
    int& el(const P& p, int i) { return p->b->v[p->off + i]; }
    std::string show(const P& p)
    {
        std::string r;
        if (p->view) r = "view(" + str(p->s) + ")";
        r += "float[";
        for (int i=0; i<size(p); i++) r += (i ? ", " : "") + std::to_string(el(p, i));
        return r + "]";
    }
    void assign(P& d, P s)
    {
        Shape ds = d->s, ss = s->view ? s->s : Shape{ size(s) };
        if (d->view && ds == ss)
        {
            std::vector<int> t;
            for (int i=0; i<size(s); i++) t.push_back(el(s, i));
            for (int i=0; i<size(s); i++) el(d, i) = t[i];
        }
        else d = s;
    }
    P copy(const P& p)
    {
        P r = std::make_shared<Node>(*p);
        r->b = std::make_shared<Base>(*p->b);
        return r;
    }

    void histories(int depth)
    {
        const int n = 5;
        static const struct { Shape s; int o; } views[] = { {{2,2}, 0}, {{2}, 1}, {{2,2}, 1}, {{3}, 0}, {{2}, 3}, {{1,2}, 1}, {{2,1}, 2} };
        var x[3];
        P m[3];
        std::vector<cd> c;
        auto b = std::make_shared<Base>();
        for (int i=0; i<n; i++) { c.push_back(cd(i)); b->v.push_back(i); }
        x[0] = ref::array(TYPE_FLOAT, c);
        m[0] = P(new Node{ false, b, 0, {} });
        int i1 = mc::choose(3), i2 = 3 + mc::choose(2);
        x[1] = x[0].view(vshape(views[i1].s), views[i1].o);
        m[1] = P(new Node{ true, b, views[i1].o, views[i1].s });
        x[2] = x[0].view(vshape(views[i2].s), views[i2].o);
        m[2] = P(new Node{ true, b, views[i2].o, views[i2].s });
        MC_NOTE("x = %s; y = %s at %d; z = %s at %d", show(m[0]).c_str(), str(m[1]->s).c_str(), m[1]->off,
                str(m[2]->s).c_str(), m[2]->off);
        const char* nm[] = { "x", "y", "z" };
        for (int d=0; d<depth; d++)
        {
            struct Op { int o, a, b, k; };
            enum { WRITE, ASSIGN, COPY, OFFSET, VIEW, PUSH, ARRAY, SUB, ELEM, CLEAR };
            static std::vector<Op> ops;
            ops.clear();
            for (int a=0; a<3; a++)
            {
                int na = size(m[a]);
                if (na) ops.push_back({ WRITE, a, 0, 0 });
                if (na > 1) ops.push_back({ WRITE, a, 0, na - 1 });
                for (int q=0; q<3; q++)
                {
                    if (a != q) ops.push_back({ ASSIGN, a, q, 0 });
                    ops.push_back({ COPY, a, q, 0 });
                }
                if (m[a]->view)
                {
                    for (int o=0; o + na <= (int)m[a]->b->v.size() && o < 4; o++)
                        if (o != m[a]->off) ops.push_back({ OFFSET, a, 0, o });
                    if (m[a]->s.size() > 1 &&
                        m[a]->off + 2 * m[a]->s[1] <= (int)m[a]->b->v.size())
                        for (int q=0; q<3; q++) ops.push_back({ SUB, q, a, m[a]->s[1] });
                }
                else
                    ops.push_back({ PUSH, a, 0, 0 });
                if (a != 0)
                    for (int k=0; k<7; k++)
                        if (!m[0]->view && views[k].o + prod(views[k].s) <= size(m[0])) ops.push_back({ VIEW, a, 0, k });
                ops.push_back({ ARRAY, a, 0, 2 });
                ops.push_back({ ARRAY, a, 0, 3 });
                for (int q=0; q<3; q++)
                    if (na && size(m[q])) ops.push_back({ ELEM, a, q, 0 });
            }
            Op op = ops[mc::choose(ops.size())];
            int a = op.a, q = op.b;
            switch (op.o)
            {
            case WRITE:
                MC_NOTE("%s.at(%d) = %d", nm[a], op.k, 40 + d);
                x[a].at(op.k) = 40 + d;
                el(m[a], op.k) = 40 + d;
                break;
            case ASSIGN:
                MC_NOTE("%s = %s", nm[a], nm[q]);
                x[a] = x[q];
                assign(m[a], m[q]);
                break;
            case COPY:
                MC_NOTE("%s = %s.copy()", nm[a], nm[q]);
                x[a] = x[q].copy();
                assign(m[a], copy(m[q]));
                break;
            case OFFSET:
                MC_NOTE("%s.offset(%d)", nm[a], op.k);
                x[a].offset(op.k);
                m[a]->off = op.k;
                break;
            case VIEW:
                MC_NOTE("%s = x.view(%s, %d)", nm[a], str(views[op.k].s).c_str(), views[op.k].o);
                x[a] = x[0].view(vshape(views[op.k].s), views[op.k].o);
                assign(m[a], P(new Node{ true, m[0]->b, views[op.k].o, views[op.k].s }));
                break;
            case SUB:
                MC_NOTE("%s = %s.subview(1, %d)", nm[a], nm[q], op.k);
                x[a] = x[q].subview(1, op.k);
                assign(m[a], P(new Node{ true, m[q]->b, m[q]->off + op.k, { m[q]->s.back() } }));
                break;
            case PUSH:
                MC_NOTE("%s.push(%d) three times", nm[a], 60 + d);
                for (int i=0; i<3; i++)
                { x[a].push((float)(60 + d)); m[a]->b->v.push_back(60 + d); }
                break;
            case ARRAY:
            {
                MC_NOTE("%s = new array of %d", nm[a], op.k);
                std::vector<cd> v;
                P p(new Node{ false, std::make_shared<Base>(), 0, {} });
                for (int i=0; i<op.k; i++) { v.push_back(cd(70 + i)); p->b->v.push_back(70 + i); }
                x[a] = ref::array(TYPE_FLOAT, v);
                assign(m[a], p);
                break;
            }
            case ELEM:
                MC_NOTE("%s.at(0) = %s.at(last)", nm[a], nm[q]);
                x[a].at(0) = x[q].at(size(m[q]) - 1);
                el(m[a], 0) = el(m[q], size(m[q]) - 1);
                break;
            }
            mc::step();
            if (!mc::fresh()) continue;
            std::string h;
            for (int i=0; i<3; i++)
            {
                std::string g = ref::show(x[i]), w = show(m[i]);
                MC_CHECK(g == w, "history", "%s is %s, should be %s", nm[i], g.c_str(), w.c_str());
                MC_CHECK(x[i].offset() == m[i]->off, "history", "%s has offset %d, not %d", nm[i],
                         x[i].offset(), m[i]->off);
                h += g + std::to_string(m[i]->off);
                for (int j=0; j<i; j++) h += m[i] == m[j] ? "=" : m[i]->b == m[j]->b ? "~" : "/";
            }
            mc::state(h);
        }
    }
}

int main(int argc, char** argv)
{
    mc::add("construct", []{ construct(mc::thorough() ? 9 : 6); }, mc::LEAK);
    mc::add("allocate", allocate, mc::LEAK);
    mc::add("assignment", []{ if (mc::thorough()) assignment(3, 4, 8); else assignment(3, 2, 4); }, mc::LEAK);
    mc::add("histories", []{ histories(mc::thorough() ? 4 : 3); }, mc::LEAK);
    mc::add("sizes", big::views);
    mc::bound("elements", mc::thorough() ? 9 : 6);
    mc::bound("history", mc::thorough() ? 4 : 3);
    return mc::run(argc, argv, "C09", "model_checking", {
        "arrays are not made smaller while there are views of them" });
}
