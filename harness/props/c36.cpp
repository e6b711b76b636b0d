// C36: what a variable says of itself (type, size, shape, identity) is so,
// whatever it holds and however it is held.
#include "arr.h"

using namespace libube;
using namespace ref;

namespace
{
    enum { NVIEW = 6 };

    // A value with what should be said of it
    struct Val
    {
        var v;
        bool def = true, view = false;
        int type = TYPE_ARRAY, atype = -1, size = 0, off = 0;
        Shape shape;                 // of a view
        std::string name;
    };

    Val nothing() { Val x; x.def = false; x.name = "nil"; return x; }

    Val one(int t)
    {
        Val x;
        x.v = scalar(t, cd(3, t >= TYPE_CFLOAT ? 4 : 0));
        x.type = t == TYPE_CDOUBLE ? (int)TYPE_ARRAY : t;
        x.atype = t; x.size = 1;
        x.name = std::string("single ") + tname(t);
        return x;
    }

    // Types beyond the numeric ones are TYPE_VAR and TYPE_PAIR
    var make(int t, int n)
    {
        if (t == TYPE_VAR)
        {
            var v;
            v.resize(n);
            for (int i=0; i<n; i++) if (i % 2) v[i] = i; else v[i] = "x";
            return v;
        }
        if (t == TYPE_PAIR)
        {
            var v;
            v["a"] = 1;
            v.remove(0);
            for (int i=0; i<n; i++) v[var(i * 2)] = i;
            return v;
        }
        std::vector<cd> c;
        for (int i=0; i<n; i++) c.push_back(cd('a' + i));
        return ref::array(t, c);
    }

    Val arr(int t, int n)
    {
        Val x;
        x.v = make(t, n);
        x.atype = t; x.size = n;
        x.name = std::string(tname(t)) + "[" + std::to_string(n) + "]";
        return x;
    }

    Val viewed(int t, const Shape& s, int off, int spare)
    {
        Val x;
        int n = prod(s);
        var b = make(t, n + off + spare);
        x.v = b.view(vshape(s), off);
        x.view = true;
        x.shape = s; x.off = off; x.atype = t; x.size = n;
        x.name = "view " + str(s) + " of " + tname(t) + " at " + std::to_string(off);
        return x;
    }

    Val value(int maxDim, int maxSize)
    {
        switch (mc::choose(4))
        {
        case 0: return nothing();
        case 1: return one(mc::range(TYPE_CHAR, TYPE_CDOUBLE));
        case 2: return arr(mc::range(TYPE_CHAR, TYPE_PAIR), mc::range(0, maxSize));
        }
        static const std::vector<Shape> all = shapes(1, 4, 0, 3);
        int t = mc::range(TYPE_CHAR, TYPE_VAR);
        Shape s = mc::pick(all);
        if ((int)s.size() > maxDim) mc::prune();
        int off = mc::choose(3);
        return viewed(t, s, off, mc::choose(2));
    }

    template<class T> bool is(const var& v, bool& threw)
    {
        bool r = false;
        threw = throws([&]{ r = v.atype<T>(); });
        return r;
    }

    std::string text(const var& v) { return std::string(v.str(), v.size()); }

    void check(const Val& x, const var& v, const char* how)
    {
        mc::step();
        std::string was = show(v);
        const char* n = x.name.c_str();
        MC_NOTE("%s, %s: %s", n, how, was.c_str());
        MC_CHECK(v.defined() == x.def && (bool)v == x.def, "defined", "%s, %s: defined() %d", n, how, v.defined());
        MC_CHECK(v.size() == x.size, "size", "%s, %s: size() %d", n, how, v.size());
        MC_CHECK((long)v.type() == x.type, "type", "%s, %s: type() %s", n, how, tname((long)v.type()));
        MC_CHECK(text(v.typeStr()) == tname(x.type), "typeStr", "%s, %s: typeStr() %s", n, how, v.typeStr().str());
        MC_CHECK(std::string(typeStr(v.type())) == tname(x.type), "typeStr", "%s, %s: typeStr(type())", n, how);
        long at = -1;
        bool t = throws([&]{ at = v.atype(); });
        MC_CHECK(t == !x.def && (t || at == x.atype), "atype", "%s, %s: atype() %s", n, how, t ? "throws" : tname(at));
        std::string s;
        t = throws([&]{ s = text(v.atypeStr()); });
        std::string want = x.type == TYPE_ARRAY ? std::string("array[") + tname(x.atype) + "]" : tname(x.type);
        MC_CHECK(t == !x.def && (t || s == want), "atypeStr", "%s, %s: atypeStr() %s", n, how, t ? "throws" : s.c_str());
        bool th[8], is_[8] = {
            is<char>(v, th[0]), is<int>(v, th[1]), is<long>(v, th[2]), is<float>(v, th[3]), is<double>(v, th[4]),
            is<cfloat>(v, th[5]), is<cdouble>(v, th[6]), is<var>(v, th[7]) };
        for (int i=0; i<8; i++)
            MC_CHECK(th[i] == !x.def && (th[i] || is_[i] == (x.atype == i + TYPE_CHAR)), "atypeT",
                     "%s, %s: atype<%s>() %s", n, how, tname(i + TYPE_CHAR), th[i] ? "throws" : is_[i] ? "true" : "false");
        // Shape
        int dim = x.view ? x.shape.size() : 1;
        Shape sh = x.view ? x.shape : Shape(1, x.size);
        MC_CHECK(v.view() == x.view, "view", "%s, %s: view() %d", n, how, v.view());
        MC_CHECK(v.dim() == dim, "dim", "%s, %s: dim() %d", n, how, v.dim());
        MC_CHECK(v.offset() == x.off, "offset", "%s, %s: offset() %d", n, how, v.offset());
        var svar = v.shape();
        MC_CHECK(svar.size() == dim, "shape", "%s, %s: shape() is %s", n, how, show(svar).c_str());
        int stride = 1;
        for (int i=dim-1; i>=0; i--)
        {
            MC_CHECK(svar.at(i).get<int>() == sh[i], "shape", "%s, %s: shape() is %s", n, how, show(svar).c_str());
            MC_CHECK(v.shape(i) == sh[i] && v.shape(i - dim) == sh[i], "shape", "%s, %s: shape(%d) is %d, shape(%d) is %d",
                     n, how, i, v.shape(i), i - dim, v.shape(i - dim));
            MC_CHECK(v.stride(i) == stride && v.stride(i - dim) == stride, "stride", "%s, %s: stride(%d) is %d, stride(%d) is %d",
                     n, how, i, v.stride(i), i - dim, v.stride(i - dim));
            stride *= sh[i];
            for (int j=-1; j<=sh[i]+1; j++)
            {
                bool out = throws([&]{ v.bounds(i, j); });
                MC_CHECK(out == (j < 0 || j >= sh[i]), "bounds", "%s, %s: bounds(%d, %d) %s", n, how, i, j, out ? "throws" : "does not throw");
            }
        }
        for (int i=dim; i<dim+2; i++)
        {
            MC_CHECK(throws([&]{ v.shape(i); }), "shape", "%s, %s: shape(%d) does not throw", n, how, i);
            MC_CHECK(throws([&]{ v.stride(i); }), "stride", "%s, %s: stride(%d) does not throw", n, how, i);
            MC_CHECK(throws([&]{ v.bounds(i, 0); }), "bounds", "%s, %s: bounds(%d, 0) does not throw", n, how, i);
        }
        MC_CHECK(throws([&]{ v.shape(-1 - dim); }), "shape", "%s, %s: shape(%d) does not throw", n, how, -1 - dim);
        MC_CHECK(throws([&]{ v.stride(-1 - dim); }), "stride", "%s, %s: stride(%d) does not throw", n, how, -1 - dim);
        // Keys
        for (int i=-1; i<=x.size; i++)
        {
            var k;
            bool out = throws([&]{ k = v.key(i); });
            bool map = x.def && x.atype == TYPE_PAIR && i >= 0 && i < x.size;
            MC_CHECK(out == !map && (out || k == var(i * 2)), "key", "%s, %s: key(%d) is %s", n, how, i, out ? "throws" : show(k).c_str());
        }
        // Elements are where it says they are, and no further
        for (int i=-1; i<=x.size; i++)
        {
            bool out = throws([&]{ var e = v.at(i); });
            MC_CHECK(out == (i < 0 || i >= x.size), "at", "%s, %s: at(%d) %s", n, how, i, out ? "throws" : "does not throw");
        }
        MC_CHECK(show(v) == was, "changed", "%s, %s: was %s, became %s", n, how, was.c_str(), show(v).c_str());
        mc::state(x.name + how);
    }

    var pass(var v) { return v; }
    void byValue(const Val& x, var v, const char* how) { check(x, v, how); }

    // All of the ways to have it
    void held(int maxDim, int maxSize)
    {
        Val x = value(maxDim, maxSize);
        var& v = x.v;
        switch (mc::choose(12))
        {
        case 0: check(x, v, "itself"); break;
        case 1: { var w = v; check(x, w, "copied"); break; }
        case 2: { var w; w = v; check(x, w, "assigned"); break; }
        case 3: byValue(x, v, "passed"); break;
        case 4: { var w = pass(v); check(x, w, "returned"); break; }
        case 5: { var w = v, m(std::move(w)); check(x, m, "moved"); check(nothing(), w, "moved from"); break; }
        case 6: { var a = {"a", v, 3}; check(x, a[1], "element"); check(x, a.at(1), "element at()"); var r = a[1]; check(x, r, "reference"); break; }
        case 7: { var m; m["k"] = v; m["j"] = 1; check(x, m["k"], "entry"); check(x, m.at("k"), "entry at()"); check(x, m.at(1), "entry by position"); break; }
        case 8: { var a = {"a", v}; var b = {"b", a}; check(x, b[1][1], "element of element"); break; }
        case 9: { var a = {"a", v}; var m; m["k"] = a; check(x, m["k"][1], "element of entry"); break; }
        case 10:
        {
            // A copy is of the same type, size and shape; that of a view too
            var c = v.copy();
            check(x, c, "copy()");
            var a = {"a", v}, d = a[1].copy();
            check(x, d, "copy() of element");
            break;
        }
        case 11: { var w = {1.5, 2.5}; w = v; check(x, w, "overwriting"); w = "x"; check(x, v, "itself after overwriting"); break; }
        }
    }

    // Elements of arrays of numbers
    void elements()
    {
        int t = mc::range(TYPE_CHAR, TYPE_CDOUBLE), n = mc::range(1, 3), i = mc::choose(n), how = mc::choose(4);
        Val x = one(t);
        // Not an array when it is an element
        x.type = t;
        Val e = x;
        Val z = arr(t, n);
        var a = z.v, b = a, w = a.view({n});
        var h = {"x", a};
        var v = how == 0 ? a[i] : how == 1 ? b.at(i) : how == 2 ? w[i] : h[1][i];
        x.name = z.name + " element";
        // (an element of cdouble is described as that)
        if (t == TYPE_CDOUBLE)
        {
            mc::step();
            MC_CHECK(v.defined() && v.size() == 1 && (long)v.atype() == t && v.dim() == 1 && v.shape(0) == 1 && !v.view(), "cdouble",
                     "element of cdouble: size %d type %s", v.size(), tname((long)v.atype()));
            return;
        }
        check(x, v, "element");
        var c = v.copy();
        check(x, c, "copy() of element");
    }

    // Identity is that of storage
    void identity()
    {
        Val x = value(2, 3);
        if (!x.def) mc::prune();
        bool heap = x.type == TYPE_ARRAY;
        var a = x.v, b = a;
        mc::step();
        MC_CHECK(a.is(a), "self", "%s is not itself", x.name.c_str());
        MC_CHECK(a.is(b) == heap && b.is(a) == heap, "shared", "%s: is() of another with the same storage is %d", x.name.c_str(), a.is(b));
        var c = a.copy();
        MC_CHECK(!a.is(c) && !c.is(a), "copy", "%s is its copy", x.name.c_str());
        var h = {"h", a}, m;
        m["m"] = a;
        var e = h[1], f = m["m"];
        MC_CHECK(a.is(e) == heap && e.is(a) == heap && e.is(f) == heap, "element", "%s: is() of an element with the same storage is %d", x.name.c_str(), a.is(e));
        var o = make(TYPE_INT, 2), p;
        MC_CHECK(!a.is(o) && !o.is(a), "other", "%s is another", x.name.c_str());
        MC_CHECK(!a.is(p) && !p.is(a), "nil", "%s is nil", x.name.c_str());
        if (x.view && x.size)
        {
            // Another view of the same
            var y = a.view(x.v.shape());
            MC_CHECK(a.is(y) && y.is(a), "view", "%s is not another view of the same", x.name.c_str());
        }
        mc::state(x.name);
    }

    // Views of an array, of the same locations but any shape
    void identityViews()
    {
        static const std::vector<Shape> shapes = { {6}, {2, 3}, {3, 2}, {1, 6}, {6, 1}, {1, 2, 3}, {3, 1, 2}, {2}, {1}, {2, 2}, {1, 1, 5} };
        int t = mc::choose(TYPE_CDOUBLE - TYPE_CHAR + 1) + TYPE_CHAR;
        var a = make(t, 6), o = make(t, 6), c = a;
        auto shaped = [](const Shape& s) { var r; for (int n : s) r.push(n); r.array(); return r; };
        Shape s1 = mc::pick(shapes), s2 = mc::pick(shapes);
        var v = a.view(shaped(s1)), w = a.view(shaped(s2)), u = v, x = o.view(shaped(s1));
        std::string name = std::string(tname(t)) + " " + ref::show(shaped(s1)) + " and " + ref::show(shaped(s2));
        mc::step();
        MC_CHECK(a.is(v) && v.is(a) && c.is(v) && v.is(c) && v.is(u), "view", "A view of %s is not of its array", name.c_str());
        MC_CHECK(v.is(w) && w.is(v), "views", "Views of the same array, %s, are not the same", name.c_str());
        MC_CHECK(!v.is(o) && !o.is(v) && !v.is(x) && !x.is(w) && !a.is(x), "other", "A view of %s is of another array", name.c_str());
        var d = v.copy();
        MC_CHECK(!d.is(v) && !a.is(d) && !d.is(w), "copy", "A copy of a view of %s is of the same array", name.c_str());
        mc::state(name);
    }

    // typeStr() of numbers that are not types
    void types()
    {
        int t = mc::range(-3, 13);
        mc::step();
        std::string s;
        bool threw = throws([&]{ s = typeStr(ind(t)); });
        bool ok = t >= TYPE_ARRAY && t <= TYPE_PAIR;
        MC_CHECK(threw == !ok && (threw || s == tname(t)), "typeStr", "typeStr(%d) is %s", t, threw ? "error" : s.c_str());
    }

    // The type of a variable follows what is done to it
    void histories(int depth)
    {
        var v, other;
        Val x = nothing();
        for (int k=0; k<depth; k++)
        {
            switch (mc::choose(10))
            {
            case 0: { int t = mc::range(TYPE_CHAR, TYPE_CFLOAT); x = one(t); v = x.v; x.name = std::string("= ") + x.name; break; }
            case 1: { x = arr(mc::range(TYPE_CHAR, TYPE_PAIR), 2); v = var(); v = x.v; break; }
            case 2: v = var(); x = nothing(); break;
            case 3: v.clear(); x = nothing(); break;
            case 4:
                // An array of one, unless it is one
                if (!x.def || x.type == TYPE_ARRAY) mc::prune();
                v.array(); x.type = TYPE_ARRAY;
                break;
            case 5:
                // Longer: of the same type
                if (!x.def || x.view || x.atype >= TYPE_VAR) mc::prune();
                v.push(scalar(x.atype, 'z')); x.type = TYPE_ARRAY; x.size++;
                break;
            case 6:
                if (!x.def || x.view || !x.size) mc::prune();
                v.pop(); x.size--;
                if (x.type != TYPE_ARRAY) x = nothing();
                break;
            case 7:
            {
                if (x.type != TYPE_ARRAY || !x.def || x.view || x.size < 2 || x.atype == TYPE_PAIR) mc::prune();
                v = v.view({1, x.size});
                x.view = true; x.shape = { 1, x.size };
                break;
            }
            case 8:
                if (!x.def || x.type != TYPE_ARRAY) mc::prune();
                v = v.copy();
                break;
            case 9:
                // To another and back
                other = v; v = 1; v = other; other = var();
                break;
            }
            x.name += "'";
            check(x, v, "history");
        }
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::bound("dimensions", 4);
    mc::add("held", [=]{ held(th ? 4 : 3, th ? 12 : 4); });
    mc::add("elements", elements);
    mc::add("identity", identity);
    mc::add("identity of views", identityViews);
    mc::add("types", types);
    mc::add("histories", [=]{ histories(th ? 4 : 3); });
    mc::add("leaks", []{ held(2, 2); }, mc::LEAK);
    mc::add("leaks histories", []{ histories(2); }, mc::LEAK);
    return mc::run(argc, argv, "C36", "model_checking");
}
