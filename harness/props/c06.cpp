// C06: array arithmetic broadcasts element by element.
#include "ref.h"
#include "bigops.h"
#include <lube/math.h>
using namespace ref;
using namespace libube;

namespace
{
    typedef std::vector<int> Shape;
    const int types[] = { TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE };
    const char* opName[] = { "+", "-", "*", "/" };

    int prod(const Shape& s) { int p = 1; for (int i : s) p *= i; return p; }
    std::string str(const Shape& s)
    {
        std::string r;
        for (size_t i=0; i<s.size(); i++) r += (i ? "x" : "") + std::to_string(s[i]);
        return r;
    }
    var vshape(const Shape& s)
    {
        var r;
        r = var((int)s.size(), s.data());
        return r;
    }

    // Small integers (complex if possible), all different
    cd lval(int t, int i)
    { return t >= TYPE_CFLOAT ? cd(3*i + 2, i - 4) : cd(3*i + 2); }
    cd rval(int t, int i)
    { return t >= TYPE_CFLOAT ? cd(2*i - 3, 5 - i) : cd(2*i - 3); }

    cd apply(int o, cd a, cd b)
    {
        switch (o)
        {
        case 0: return a + b;
        case 1: return a - b;
        case 2: return cd(a.real()*b.real() - a.imag()*b.imag(),
                          a.real()*b.imag() + a.imag()*b.real());
        }
        return a / b;
    }
    bool near(int t, cd a, cd b)
    {
        double eps = (t == TYPE_FLOAT || t == TYPE_CFLOAT) ? 1.2e-7 : 2.3e-16;
        if (a != a || b != b) return a != a && b != b;
        return a == b || std::abs(a - b) <= 8 * eps * std::abs(b);
    }

    var binary(int o, const var& a, const var& b)
    {
        switch (o)
        { case 0: return a + b; case 1: return a - b; case 2: return a * b; }
        return a / b;
    }
    void compound(int o, var& a, const var& b)
    {
        switch (o)
        {
        case 0: a += b; break; case 1: a -= b; break;
        case 2: a *= b; break; case 3: a /= b; break;
        }
    }
    void functor(int o, const var& a, const var& b, var& c)
    {
        switch (o)
        {
        case 0: add(a, b, c); break; case 1: sub(a, b, c); break;
        case 2: mul(a, b, c); break; case 3: libube::div(a, b, c); break;
        }
    }

    // An array with the given shape; how: 0 plain (1-D only) or a view of
    // exactly its own size, 1 a view into a larger array
    struct Arr
    {
        var base, v;
        int off;
        std::vector<cd> was;           // of the whole base
    };
    Arr make(int t, const Shape& s, int how, cd (*f)(int, int))
    {
        Arr r;
        int n = prod(s);
        r.off = how ? 2 : 0;
        int total = how ? n + 5 : n;
        for (int i=0; i<total; i++)
            r.was.push_back(i >= r.off && i < r.off + n ? f(t, i - r.off) : cd(100 + i));
        r.base = ref::array(t, r.was);
        r.v = (how == 0 && s.size() == 1) ? r.base : r.base.view(vshape(s), r.off);
        return r;
    }
    std::vector<cd> read(const var& v)
    {
        std::vector<cd> r;
        int n = v.size();
        for (int i=0; i<n; i++) r.push_back(num(v.at(i)));
        return r;
    }
    std::string list(const std::vector<cd>& v)
    {
        std::string r;
        for (auto c : v) r += (r.size() ? ", " : "") + (c.imag() ? fmt(c) : fmt(c, false));
        return "[" + r + "]";
    }
    bool equal(int t, const std::vector<cd>& a, const std::vector<cd>& b)
    {
        if (a.size() != b.size()) return false;
        for (size_t i=0; i<a.size(); i++) if (!near(t, a[i], b[i])) return false;
        return true;
    }
    bool shaped(const var& v, const Shape& s)
    {
        if ((int)v.dim() != (int)s.size()) return false;
        for (size_t i=0; i<s.size(); i++) if (v.shape(i) != s[i]) return false;
        return true;
    }

    std::vector<Shape> shapes(int maxd, int maxn)
    {
        std::vector<Shape> r;
        for (int d=1; d<=maxd; d++)
        {
            Shape s(d, 1);
            for (;;)
            {
                r.push_back(s);
                int k = d - 1;
                while (k >= 0 && ++s[k] > maxn) s[k--] = 1;
                if (k < 0) break;
            }
        }
        return r;
    }

    bool trailing(const Shape& a, const Shape& b)
    {
        if (b.size() > a.size()) return false;
        for (size_t i=1; i<=b.size(); i++)
            if (a[a.size()-i] != b[b.size()-i]) return false;
        return true;
    }

    // Array with array
    void arrays()
    {
        static const std::vector<Shape> all = shapes(3, mc::thorough() ? 4 : 3);
        const Shape& a = mc::pick(all);
        const Shape& b = mc::pick(all);
        int t = mc::pick(types);
        int o = mc::choose(3);
        int form = mc::choose(4);
        int ha = mc::choose(2), hb = mc::choose(2);
        // A lone cdouble is a single value
        bool single = b.size() == 1 && prod(b) == 1;
        bool leftOne = t == TYPE_CDOUBLE && a.size() == 1 && prod(a) == 1 && !ha;
        bool ok = single || trailing(a, b);
        if (leftOne && prod(b) == 1) return;         // as for C05
        Arr x = make(t, a, ha, lval), y = make(t, b, hb, rval);
        std::string what = std::string(tname(t)) + " " + str(a) + " " + opName[o] + " " + str(b);
        MC_NOTE("%s, form %d, %s, %s", what.c_str(), form, ha ? "view" : "whole", hb ? "view" : "whole");
        std::vector<cd> want;
        for (int i=0; i<prod(a); i++)
            want.push_back(apply(o, lval(t, i), rval(t, i % prod(b))));
        var z;
        Shape zs = a;
        Arr c;
        bool threw = ref::throws([&] {
            switch (form)
            {
            case 0: z = binary(o, x.v, y.v); break;
            case 1: compound(o, x.v, y.v); z = x.v; break;
            case 2: c = make(t, a, 1, lval); functor(o, x.v, y.v, c.v); z = c.v; break;
            case 3: functor(o, x.v, y.v, y.v); z = y.v; zs = b; break;
            }
        });
        // Output into the right operand needs it to be large enough
        if (form == 3 && prod(a) != prod(b)) ok = false;
        mc::step();
        MC_CHECK(threw == !ok, "conform", "%s, form %d, %s", what.c_str(), form,
                 threw ? "throws" : "does not throw");
        if (ok)
        {
            MC_CHECK(equal(t, read(z), want), "value", "%s, form %d: got %s, expected %s",
                     what.c_str(), form, list(read(z)).c_str(), list(want).c_str());
            MC_CHECK((leftOne && form != 2) || shaped(z, zs), "shape", "%s, form %d: result has the wrong"
                     " shape: %s", what.c_str(), form, ref::show(z).c_str());
            if (form == 1)
                std::copy(want.begin(), want.end(), x.was.begin() + x.off);
            if (form == 3)
                std::copy(want.begin(), want.end(), y.was.begin() + y.off);
            if (form == 2)
            {
                std::copy(want.begin(), want.end(), c.was.begin() + c.off);
                MC_CHECK(equal(t, read(c.base), c.was), "outside", "%s: wrote outside"
                         " the output: %s", what.c_str(), list(read(c.base)).c_str());
            }
        }
        MC_CHECK(equal(t, read(x.base), x.was), "left", "%s, form %d: left array is %s, should be %s",
                 what.c_str(), form, list(read(x.base)).c_str(), list(x.was).c_str());
        MC_CHECK(equal(t, read(y.base), y.was), "right", "%s, form %d: right array is %s, should be %s",
                 what.c_str(), form, list(read(y.base)).c_str(), list(y.was).c_str());
        mc::state(what + char('0' + form) + char('0' + ha*2 + hb));
    }

    // Array with single value
    void singles()
    {
        static const std::vector<Shape> all = shapes(3, 3);
        static const int stypes[] = { TYPE_CHAR, TYPE_INT, TYPE_LONG, TYPE_FLOAT,
                                      TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE, TYPE_VAR };
        static const int ltypes[] = { TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE,
                                      TYPE_INT, TYPE_LONG };
        const Shape& a = mc::pick(all);
        int t = mc::pick(ltypes);
        int o = mc::choose(4);
        if (o == 2 && (t == TYPE_INT || t == TYPE_LONG)) return;  // not supported
        int st = mc::pick(stypes);
        int form = mc::choose(3), ha = mc::choose(2);
        cd s = st == TYPE_FLOAT || st == TYPE_DOUBLE ? cd(2.5)
            : st == TYPE_CFLOAT || st == TYPE_CDOUBLE ? cd(2, t == TYPE_CFLOAT || t == TYPE_CDOUBLE ? -1 : 0) : cd(3);
        bool leftOne = t == TYPE_CDOUBLE && a.size() == 1 && prod(a) == 1 && !ha;
        Arr x = make(t, a, ha, lval);
        var y;
        int e = -1;
        if (st == TYPE_VAR)
        {
            // An element of the array itself
            e = mc::choose(std::min(prod(a), 3)) * (prod(a) > 3 ? (prod(a)-1) / 2 : 1);
            y = x.v.at(e);
            s = lval(t, e);
        }
        else
            y = ref::scalar(st, s);
        s = as(t, s);
        std::string what = std::string(tname(t)) + " " + str(a) + " " + opName[o] + " "
            + (e >= 0 ? "element" : tname(st)) + " " + fmt(s);
        MC_NOTE("%s, form %d, %s", what.c_str(), form, ha ? "view" : "whole");
        std::vector<cd> want;
        for (int i=0; i<prod(a); i++)
        {
            cd r = apply(o, lval(t, i), s);
            want.push_back(as(t, r));
        }
        var z;
        Arr c;
        auto arg = [&]() -> var { return e >= 0 ? x.v.at(e) : y; };
        switch (form)
        {
        case 0: z = binary(o, x.v, arg()); break;
        case 1: compound(o, x.v, arg()); z = x.v; break;
        case 2: c = make(t, a, 1, rval); functor(o, x.v, arg(), c.v); z = c.v; break;
        }
        mc::step();
        MC_CHECK(equal(t, read(z), want), "value", "%s, form %d: got %s, expected %s",
                 what.c_str(), form, list(read(z)).c_str(), list(want).c_str());
        MC_CHECK(leftOne || shaped(z, a), "shape", "%s, form %d: result has the wrong shape: %s",
                 what.c_str(), form, ref::show(z).c_str());
        if (form == 1)
            std::copy(want.begin(), want.end(), x.was.begin() + x.off);
        if (form == 2)
        {
            std::copy(want.begin(), want.end(), c.was.begin() + c.off);
            MC_CHECK(equal(t, read(c.base), c.was), "outside", "%s: wrote outside the output: %s",
                     what.c_str(), list(read(c.base)).c_str());
        }
        MC_CHECK(equal(t, read(x.base), x.was), "left", "%s, form %d: left array is %s, should be %s",
                 what.c_str(), form, list(read(x.base)).c_str(), list(x.was).c_str());
        if (e < 0)
            MC_CHECK(num(y) == as(st, st == TYPE_FLOAT || st == TYPE_DOUBLE ? cd(2.5) : st >= TYPE_CFLOAT ? num(y) : cd(3)),
                     "right", "%s, form %d: the value changed to %s", what.c_str(), form, ref::show(y).c_str());
        mc::state(what + char('0' + form) + char('0' + ha));
    }

    // A value on the left with an array on the right does not conform
    void mismatched()
    {
        int t = mc::pick(types), o = mc::choose(4), k = mc::choose(6), form = mc::choose(2);
        var x = ref::scalar(t, cd(3)), y = ref::array(t, { cd(1), cd(2) });
        if (k == 1) { x = ref::array(t, { cd(1), cd(2) }); y = ref::array(t == TYPE_FLOAT ? TYPE_DOUBLE : TYPE_FLOAT, { cd(1), cd(2) }); }
        if (k == 2) { x = ref::array(t, { cd(1), cd(2) }); y = "ab"; }
        if (k == 3) { x = ref::array(t, { cd(1), cd(2) }); y = nil; }
        if (k == 4) { x = ref::array(t, { cd(1), cd(2) }); y = nil; y["k"] = 1; y["l"] = 2; }
        if (k == 5) { x = nil; }
        std::string a = ref::show(x), b = ref::show(y);
        MC_NOTE("%s %s %s", a.c_str(), opName[o], b.c_str());
        var z = "untouched";
        bool threw = ref::throws([&] {
            if (form == 0) z = binary(o, x, y); else compound(o, x, y); });
        mc::step();
        MC_CHECK(threw, "conform", "%s %s %s does not throw: %s", a.c_str(), opName[o],
                 b.c_str(), ref::show(form == 0 ? z : x).c_str());
        MC_CHECK(ref::show(x) == a && ref::show(y) == b && ref::show(z) == "\"untouched\"", "operands",
                 "%s %s %s left %s and %s", a.c_str(), opName[o], b.c_str(),
                 ref::show(x).c_str(), ref::show(y).c_str());
        mc::state(a + b + opName[o]);
    }

    // Operands that overlap in one array
    void overlap(int n)
    {
        int t = mc::pick(types), o = mc::choose(3), form = mc::choose(5);
        Shape a, b;
        static const Shape as_[] = { {1}, {2}, {3}, {4}, {2,2}, {1,3}, {3,1}, {2,1}, {1,2}, {2,3}, {3,2} };
        a = mc::pick(as_);
        int d = mc::range(1, a.size());
        b = Shape(a.end() - d, a.end());
        if (prod(a) > n) return;
        int oa = mc::range(0, n - prod(a)), ob = mc::range(0, n - prod(b));
        std::vector<cd> m;
        for (int i=0; i<n; i++) m.push_back(lval(t, i));
        var base = ref::array(t, m);
        var x = base.view(vshape(a), oa), y = base.view(vshape(b), ob);
        std::string what = std::string(tname(t)) + " " + str(a) + " at " + std::to_string(oa) + " "
            + opName[o] + " " + str(b) + " at " + std::to_string(ob);
        MC_NOTE("%s, form %d", what.c_str(), form);
        std::vector<cd> want;
        for (int i=0; i<prod(a); i++)
            want.push_back(apply(o, m[oa+i], m[ob + i % prod(b)]));
        var z;
        auto put = [&](int at) { std::copy(want.begin(), want.end(), m.begin() + at); };
        switch (form)
        {
        case 0: z = binary(o, x, y); break;
        case 1: compound(o, x, y); z = x; put(oa); break;
        case 2: functor(o, x, y, x); z = x; put(oa); break;
        case 3:
            if (prod(a) != prod(b) || (oa != ob && std::abs(oa-ob) < prod(a))) return;
            functor(o, x, y, y); z = y; put(ob); break;
        case 4:
        {
            // Another view of the left operand
            var w = base.view(vshape(a), oa);
            functor(o, x, y, w); z = w; put(oa); break;
        }
        }
        mc::step();
        MC_CHECK(equal(t, read(z), want), "value", "%s, form %d: got %s, expected %s",
                 what.c_str(), form, list(read(z)).c_str(), list(want).c_str());
        MC_CHECK(equal(t, read(base), m), "storage", "%s, form %d: storage is %s, should be %s",
                 what.c_str(), form, list(read(base)).c_str(), list(m).c_str());
        mc::state(what + char('0' + form));
    }

    // Histories of in-place operations
    void histories(int depth)
    {
        static const int two[] = { TYPE_FLOAT, TYPE_CDOUBLE };
        int t = mc::thorough() ? mc::pick(types) : mc::pick(two);
        const int n = 6;
        std::vector<cd> m, q;
        for (int i=0; i<n; i++) m.push_back(as(t, cd(i + 1, i % 3)));
        q = { as(t, cd(2, 1)), as(t, cd(-1, 1)) };
        var base = ref::array(t, m), other = ref::array(t, q);
        // Views into it
        struct V { Shape s; int o; } vs[] = { {{2,2}, 0}, {{2}, 3}, {{3,2}, 0}, {{2}, 0} };
        var v[4];
        for (int i=0; i<4; i++) v[i] = base.view(vshape(vs[i].s), vs[i].o);
        for (int d=0; d<depth; d++)
        {
            struct Op { int a, b, o; };
            static std::vector<Op> ops;
            if (ops.empty())
                for (int a=0; a<5; a++) for (int b=0; b<7; b++)
                {
                    // a: 0-3 views, 4 other; b: the same, 5 number, 6 element
                    Shape sa = a < 4 ? vs[a].s : Shape{2};
                    if (b < 5 && !trailing(sa, b < 4 ? vs[b].s : Shape{2})) continue;
                    for (int o=0; o<(b > 4 ? 4 : 3); o++) ops.push_back({a, b, o});
                }
            const Op op = mc::pick(ops);
            MC_NOTE("%d %s= %d", op.a, opName[op.o], op.b);
            auto at = [&](int k, int i) -> cd& { return k < 4 ? m[vs[k].o + i] : q[i]; };
            int na = op.a < 4 ? prod(vs[op.a].s) : 2;
            std::vector<cd> w;
            int nb = op.b < 4 ? prod(vs[op.b].s) : 2;
            for (int i=0; i<na; i++)
            {
                cd r = op.b < 5 ? at(op.b, i % nb) : op.b == 5 ? cd(2) : m[1];
                if (op.o == 3 && r == cd(0)) return;
                w.push_back(as(t, apply(op.o, at(op.a, i), r)));
            }
            for (int i=0; i<na; i++) at(op.a, i) = w[i];
            var& x = op.a < 4 ? v[op.a] : other;
            if (op.b < 5) compound(op.o, x, op.b < 4 ? v[op.b] : other);
            else if (op.b == 5) compound(op.o, x, 2);
            else compound(op.o, x, base.at(1));
            mc::step();
            if (!mc::fresh()) continue;
            // Errors accumulate: compare loosely, and go on from what we got
            auto g = read(base), h = read(other);
            auto close = [&](const std::vector<cd>& a, const std::vector<cd>& b) {
                for (size_t i=0; i<a.size(); i++)
                    if (!(std::abs(a[i]-b[i]) <= 1e-5 * (1 + std::abs(b[i])))) return false;
                return a.size() == b.size(); };
            MC_CHECK(close(g, m) && close(h, q), "history", "storage is %s and %s, should be %s and %s",
                     list(g).c_str(), list(h).c_str(), list(m).c_str(), list(q).c_str());
            mc::state(list(g) + list(h));
        }
    }
}

int main(int argc, char** argv)
{
    mc::add("arrays", arrays);
    mc::add("singles", singles);
    mc::add("mismatched", mismatched, mc::LEAK);
    mc::add("overlap", []{ overlap(mc::thorough() ? 9 : 7); }, mc::LEAK);
    mc::add("histories", []{ histories(mc::thorough() ? 4 : 3); });
    mc::add("sizes", big::arithmetic);
    mc::bound("dimension_size", mc::thorough() ? 4 : 3);
    mc::bound("history", mc::thorough() ? 4 : 3);
    return mc::run(argc, argv, "C06", "model_checking", {
        "the output of the three argument form is separate from, or is, one of the operands" });
}
