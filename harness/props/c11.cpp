// C11: discrete Fourier transforms.
#include "arr.h"
#include "big.h"
#include <lube/dft.h>
using namespace ref;
using namespace libube;

namespace
{
    const int types[] = { TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE };
    bool complexType(int t) { return t >= TYPE_CFLOAT; }
    int ctype(int t) { return t == TYPE_FLOAT ? (int)TYPE_CFLOAT : t == TYPE_DOUBLE ? (int)TYPE_CDOUBLE : t; }
    var exemplar(int t) { return ref::scalar(t, 0); }
    typedef std::vector<cd> V;

    // The definition
    V dft(const V& x, int sign)
    {
        int n = x.size();
        V r(n);
        for (int k=0; k<n; k++)
        {
            cd a = 0;
            for (int i=0; i<n; i++)
                a += x[i] * std::polar(1.0, sign * 2 * M_PI * ((long)i * k % n) / n);
            r[k] = sign > 0 ? a / (double)n : a;
        }
        return r;
    }

    // Input b of size n
    V signal(int t, int n, int b)
    {
        V x(n);
        if (b < n) x[b] = complexType(t) ? cd(1, 2) : cd(1);
        else if (b == n) for (int i=0; i<n; i++) x[i] = cd((i * i + 3) % 7 - 2, complexType(t) ? (i * 5) % 4 - 1 : 0);
        else for (int i=0; i<n; i++) x[i] = cd(i & 1 ? -1 : 1);
        return x;
    }

    bool close(const V& a, const V& b, int t, double scale)
    {
        if (a.size() != b.size()) return false;
        for (size_t i=0; i<a.size(); i++)
            if (!(std::abs(a[i] - b[i]) <= 8 * epsOf(t) * scale * a.size())) return false;
        return true;
    }

    // One transform of any size, type, number of rows and output form
    void transforms(int maxn)
    {
        int n = mc::range(1, maxn);
        int t = mc::pick(types);
        bool inverse = mc::flip();
        int rows = mc::choose(4);                  // 0: a vector
        int b = mc::choose(n + 2);
        int how = mc::choose(2), form = mc::choose(3);
        int ct = ctype(t), half = complexType(t) ? n : n/2 + 1;
        int it = inverse ? ct : t, ot = inverse ? t : ct;
        int in = inverse ? half : n, on = inverse ? n : half;
        Shape s, os;
        if (rows == 3) { s = { 2, 1, in }; os = { 2, 1, on }; }
        else if (rows) { s = { rows, in }; os = { rows, on }; }
        else { s = { in }; os = { on }; }
        if (it == TYPE_CDOUBLE && s == Shape{1} && !how) return;
        int R = prod(s) / in;
        // Row r has signal b + r (mod n+2)
        V x, want;
        double scale = 1;
        for (int r=0; r<R; r++)
        {
            V w = signal(t, n, (b + r) % (n + 2)), f = dft(w, -1);
            V xi = inverse ? f : w, oi = inverse ? w : f;
            xi.resize(in); oi.resize(on);
            x.insert(x.end(), xi.begin(), xi.end());
            want.insert(want.end(), oi.begin(), oi.end());
            for (auto c : f) scale = std::max(scale, std::abs(c));
        }
        Arr a = make(it, s, how * 2, [&](int i) { return x[i]; });
        std::string what = std::string(inverse ? "inverse " : "") + "transform of size " + std::to_string(n) + " of "
            + tname(t) + " " + str(s) + ", signal " + std::to_string(b) + ", form " + std::to_string(form);
        MC_NOTE("%s", what.c_str());
        DFTBase f(n, inverse, exemplar(t));
        var r;
        Arr o;
        if (form < 2) for (int i=0; i<=form; i++) r = f(a.v);
        else { o = make(ot, os, 3, [](int) { return cd(55, 1); }); f(a.v, o.v); r = o.v; }
        mc::step();
        MC_CHECK(r.defined() && (int)(long)r.atype() == ot, "type", "%s has type %s", what.c_str(), ref::show(r).c_str());
        MC_CHECK(shaped(r, os), "shape", "%s is %s", what.c_str(), ref::show(r).c_str());
        MC_CHECK(close(read(r), want, t, scale), "value", "%s is %s, should be %s", what.c_str(),
                 list(read(r)).c_str(), list(want).c_str());
        unchanged(a, "input", what);
        if (form == 2)
        {
            V g = read(r);
            for (int i=0; i<o.n; i++) o.set(i, g[i]);
            unchanged(o, "outside", what);
        }
        mc::state(what);
    }

    // Any sequence of uses of several transform objects
    void histories(int depth)
    {
        static const int sizes[] = { 1, 4, 5 };
        struct Obj { int n, t; bool inv; std::unique_ptr<DFTBase> f; } o[2];
        struct { V x, y; var v; bool set = false; int t; double scale; } kept[2];
        for (int k=0; k<depth; k++)
        {
            int w = mc::choose(2), op = mc::choose(3);
            if (op == 0)
            {
                int n = mc::pick(sizes), t = mc::choose(2) ? (int)TYPE_FLOAT : (int)TYPE_CDOUBLE;
                bool inv = mc::flip();
                MC_NOTE("%d = %stransform(%d, %s)", w, inv ? "inverse " : "", n, tname(t));
                if (inv) o[w].f.reset(new IDFT(n, exemplar(t)));
                else o[w].f.reset(new DFT(n, exemplar(t)));
                o[w].n = n; o[w].t = t; o[w].inv = inv;
            }
            else if (op == 1)
            {
                MC_NOTE("delete %d", w);
                if (!o[w].f) mc::prune();
                o[w].f.reset();
            }
            else
            {
                Obj& q = o[w];
                if (!q.f) mc::prune();
                int rows = mc::choose(2) + 1;
                V a = signal(q.t, q.n, q.n), f = dft(a, -1);
                int half = complexType(q.t) ? q.n : q.n/2 + 1;
                V x = q.inv ? f : a, y = q.inv ? a : f;
                x.resize(q.inv ? half : q.n);
                y.resize(q.inv ? q.n : half);
                MC_NOTE("use %d on %d rows", w, rows);
                int it = q.inv ? ctype(q.t) : q.t;
                int in = x.size();
                Arr v = make(it, { rows, in }, 1, [&](int i) { return x[i % in]; });
                V want;
                for (int r=0; r<rows; r++) want.insert(want.end(), y.begin(), y.end());
                var r = (*q.f)(v.v);
                mc::step();
                MC_CHECK(close(read(r), want, q.t, 20), "value", "transform gives %s, should be %s",
                         list(read(r)).c_str(), list(want).c_str());
                unchanged(v, "input", "transform");
                kept[w].v = r; kept[w].y = want; kept[w].set = true; kept[w].t = q.t;
            }
            // Earlier results stay
            for (auto& q : kept)
                if (q.set)
                    MC_CHECK(close(read(q.v), q.y, q.t, 20), "kept", "an earlier result became %s, was %s",
                             list(read(q.v)).c_str(), list(q.y).c_str());
        }
        mc::state(std::to_string(o[0].f ? o[0].n : 0) + "," + std::to_string(o[1].f ? o[1].n : 0));
    }

    // Arguments of the wrong type, size or kind are refused, leaving no trace
    void wrong()
    {
        int n = mc::pick(std::vector<int>{1, 2, 3, 4, 5}), t = mc::pick(types);
        bool inv = mc::flip();
        int half = complexType(t) ? n : n/2 + 1;
        int it = inv ? ctype(t) : t, ot = inv ? t : ctype(t);
        int in = inv ? half : n, on = inv ? n : half;
        int which = mc::choose(2);
        // A 1 or 2 dimensional array of any type and size
        int at = mc::range(TYPE_CHAR, TYPE_CDOUBLE), rows = mc::choose(4), m = mc::range(1, 6);
        Shape s = rows ? Shape{ rows, m } : Shape{ m };
        DFTBase f(n, inv, exemplar(t));
        bool threw;
        Arr a, o;
        if (which == 0)
        {
            a = make(at, s, 1, [](int i) { return cd(i + 1); });
            MC_NOTE("%stransform(%d, %s) of %s", inv ? "inverse " : "", n, tname(t), ref::show(a.v).c_str());
            threw = ref::throws([&] { var r = f(a.v); });
            bool ok = at == it && m == in;
            MC_CHECK(threw == !ok, "input", "%stransform(%d, %s) of %s %s", inv ? "inverse " : "", n, tname(t),
                     ref::show(a.v).c_str(), threw ? "throws" : "does not throw");
        }
        else
        {
            int ir = mc::choose(3);
            a = make(it, ir ? Shape{ ir, in } : Shape{ in }, 1, [](int i) { return cd(i + 1); });
            o = make(at, s, 1, [](int i) { return cd(i + 40); });
            MC_NOTE("%stransform(%d, %s) of %s into %s", inv ? "inverse " : "", n, tname(t), ref::show(a.v).c_str(), ref::show(o.v).c_str());
            threw = ref::throws([&] { f(a.v, o.v); });
            bool ok = at == ot && m == on && std::max(ir, 1) == std::max(rows, 1);
            MC_CHECK(threw == !ok, "output", "%stransform(%d, %s) of %s into %s %s", inv ? "inverse " : "", n, tname(t),
                     ref::show(a.v).c_str(), ref::show(o.v).c_str(), threw ? "throws" : "does not throw");
            if (threw) unchanged(o, "output", "a failed transform");
        }
        mc::step();
        unchanged(a, "input", "a transform");
        mc::state(std::to_string(n * 100 + m * 10 + rows) + tname(t) + tname(at) + (inv ? "i" : "f"));
    }

    // Operands that are not arrays of numbers at all
    void others()
    {
        int n = mc::range(1, 4), t = mc::pick(types);
        bool inv = mc::flip();
        int half = complexType(t) ? n : n/2 + 1;
        int it = inv ? ctype(t) : t, ot = inv ? t : ctype(t);
        int in = inv ? half : n, on = inv ? n : half;
        int k = mc::choose(13), single = -1;
        var x;
        switch (k)
        {
        case 0: break;
        case 8: x = "text"; break;
        case 9: x["k"] = 1.0; break;
        case 10: x[0] = "a"; break;
        case 11: x[0] = ref::array(TYPE_DOUBLE, { 1, 2, 3, 4 }); break;
        case 12: x = ""; break;
        default: single = TYPE_CHAR + k - 1; x = ref::scalar(single, 2);
        }
        if (single > TYPE_CDOUBLE) return;
        std::string before = ref::show(x);
        bool into = mc::flip();
        DFTBase f(n, inv, exemplar(t));
        MC_NOTE("%stransform(%d, %s) %s %s", inv ? "inverse " : "", n, tname(t), into ? "into" : "of", before.c_str());
        bool threw, ok;
        if (into)
        {
            Arr a = make(it, Shape{ in }, 1, [](int i) { return cd(i + 1); });
            threw = ref::throws([&] { f(a.v, x); });
            ok = single == TYPE_CDOUBLE && ot == TYPE_CDOUBLE && on == 1;
            unchanged(a, "input", "a transform");
        }
        else
        {
            threw = ref::throws([&] { var r = f(x); });
            ok = single == TYPE_CDOUBLE && it == TYPE_CDOUBLE && in == 1;
        }
        mc::step();
        MC_CHECK(threw == !ok, "others", "%stransform(%d, %s) %s %s %s", inv ? "inverse " : "", n, tname(t), into ? "into" : "of", before.c_str(), threw ? "throws" : "does not throw");
        if (!ok || !into) MC_CHECK(ref::show(x) == before, "others", "%stransform(%d, %s) %s %s made it %s", inv ? "inverse " : "", n, tname(t), into ? "into" : "of", before.c_str(), ref::show(x).c_str());
    }

    // Objects that cannot be made
    void unmade()
    {
        int n = mc::pick(std::vector<int>{-2,-1,0,1,4});
        bool inv = mc::flip();
        int k = mc::choose(10);
        var v;
        switch (k)
        {
        case 0: break;
        case 1: v = 'c'; break;
        case 2: v = 1; break;
        case 3: v = 1L; break;
        case 4: v = "str"; break;
        case 5: v["a"] = 1; break;
        default: v = exemplar(types[k - 6]);
        }
        bool ok = n > 0 && k > 5;
        MC_NOTE("transform(%d, %s)", n, ref::show(v).c_str());
        bool threw = ref::throws([&] { DFTBase f(n, inv, v); });
        mc::step();
        MC_CHECK(threw == !ok, "made", "transform(%d, %s) %s", n, ref::show(v).c_str(), threw ? "throws" : "does not throw");
        if (ok) return;
        // Not an array at all
        DFTBase f(4, inv, exemplar(TYPE_FLOAT));
        MC_CHECK(ref::throws([&] { var r = f(v); }), "scalar", "transform of %s does not throw", ref::show(v).c_str());
        mc::state(n * 10 + k);
    }

    // The output is part of the input's storage
    void overlap(int n)
    {
        int t = mc::pick(std::vector<int>{TYPE_CFLOAT, TYPE_CDOUBLE});
        bool inv = mc::flip();
        int rows = mc::range(1, 2);
        int oi = mc::range(0, 4), oo = mc::range(0, 4);
        V x, want;
        for (int r=0; r<rows; r++)
        {
            V a = signal(t, n, n + r), f = dft(a, inv ? 1 : -1);
            x.insert(x.end(), a.begin(), a.end());
            want.insert(want.end(), f.begin(), f.end());
        }
        V was(rows * n + 4, cd(77));
        for (int i=0; i<rows*n; i++) was[oi + i] = x[i];
        var base = ref::array(t, was);
        var v = base.view(vshape({ rows, n }), oi), o = base.view(vshape({ rows, n }), oo);
        std::string what = "transform at " + std::to_string(oi) + " to " + std::to_string(oo);
        MC_NOTE("%s", what.c_str());
        DFTBase f(n, inv, exemplar(t));
        bool threw = ref::throws([&] { f(v, o); });
        mc::step();
        V exp = was;
        if (!threw) for (int i=0; i<rows*n; i++) exp[oo + i] = want[i];
        MC_CHECK(close(read(base), exp, t, 20), "overlap", "%s %s and gives %s, should be %s", what.c_str(),
                 threw ? "throws" : "returns", list(read(base)).c_str(), list(exp).c_str());
        // The same variable
        Arr a = make(t, { rows, n }, 1, [&](int i) { return x[i]; });
        threw = ref::throws([&] { f(a.v, a.v); });
        if (!threw)
            MC_CHECK(close(read(a.v), want, t, 20), "inplace", "an in-place transform gives %s", list(read(a.v)).c_str());
        else unchanged(a, "inplace", "an in-place transform that throws");
        mc::state(what);
    }

    // Sizes beyond those of all inputs
    void sizes(int max)
    {
        static const std::vector<int> ns = ref::bigSizes(max, 33);
        int t = mc::pick(types), n = mc::pick(ns), rows = mc::choose(2) * 2 + 1, twice = mc::choose(2);
        bool inverse = mc::flip();
        if (n < 2) mc::prune();
        int ct = ctype(t), half = complexType(t) ? n : n/2 + 1;
        int it = inverse ? ct : t, ot = inverse ? t : ct, in = inverse ? half : n, on = inverse ? n : half;
        std::string what = std::string(inverse ? "inverse " : "") + "transform of " + std::to_string(rows) + " of size " + std::to_string(n) + " of " + tname(t);
        MC_NOTE("%s", what.c_str());
        V tab(n), x, want;
        for (int i=0; i<n; i++) tab[i] = std::polar(1.0, -2 * M_PI * i / n);
        double scale = 1;
        for (int r=0; r<rows; r++)
        {
            V w = signal(t, n, n), f(n);
            for (int i=0; i<r; i++) std::rotate(w.begin(), w.begin() + 1, w.end());
            for (int k=0; k<n; k++) { cd s = 0; for (int i=0; i<n; i++) s += w[i] * tab[(long)i * k % n]; f[k] = s; }
            V xi = inverse ? f : w, oi = inverse ? w : f;
            x.insert(x.end(), xi.begin(), xi.begin() + in);
            want.insert(want.end(), oi.begin(), oi.begin() + on);
            for (auto c : f) scale = std::max(scale, std::abs(c));
        }
        var a = ref::array(it, x), v = rows > 1 ? a.view({ rows, in }) : a, r;
        DFTBase f(n, inverse, exemplar(t));
        for (int i=0; i<=twice; i++) r = f(v);
        mc::step(n);
        MC_CHECK((int)(long)r.atype() == ot && (rows == 1 ? (int)r.size() == on : r.dim() == 2 && r.shape(0) == rows && r.shape(1) == on), "large shape", "%s has shape %s", what.c_str(), ref::show(r.shape()).c_str());
        V g = read(r);
        MC_CHECK(g.size() == want.size(), "large value", "%s has %zu", what.c_str(), g.size());
        for (size_t i=0; i<g.size(); i++)
            MC_CHECK(std::abs(g[i] - want[i]) <= 64 * epsOf(t) * scale, "large value", "%s: element %zu is %s, should be %s", what.c_str(), i, fmt(g[i]).c_str(), fmt(want[i]).c_str());
        MC_CHECK(read(a) == [&]{ V q = x; for (auto& c : q) c = as(it, c); return q; }(), "large input", "%s changes its input", what.c_str());
        mc::state(what);
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::add("transforms", [=]{ transforms(th ? 32 : 12); });
    mc::add("histories", [=]{ histories(th ? 5 : 4); }, mc::LEAK);
    mc::add("wrong", wrong);
    mc::add("others", others, mc::LEAK);
    mc::add("unmade", unmade, mc::LEAK);
    mc::add("overlap", [=]{ overlap(4); if (th) overlap(5); });
    mc::add("sizes", [=]{ sizes(1025); });
    mc::bound("size", th ? 32 : 12);
    return mc::run(argc, argv, "C11", "model_checking", {"the MKL (or its substitute here) is used as built"});
}
