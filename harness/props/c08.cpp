// C08: sums, dot products and matrix products.
#include "arr.h"
#include "bigops.h"
#include <lube/math.h>
using namespace ref;
using namespace libube;

namespace
{
    const int types[] = { TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE };
    int reductionSize() { return mc::thorough() ? 4 : 3; }

    cd value(int t, int i)
    {
        static const double v[] = { 3, -7, 1, 5, -2, 11, -4, 6, 8, -9, 2, -1, 13 };
        return t >= TYPE_CFLOAT ? cd(v[i % 13], v[(i * 5 + 3) % 13]) : cd(v[i % 13]);
    }
    double mag(cd c) { return std::abs(c.real()) + std::abs(c.imag()); }

    int typeOf(const var& v)
    { return (long)v.type() == TYPE_ARRAY ? (int)(long)v.atype() : (int)(long)v.type(); }

    // f: 0 sum, 1 asum, 2 iamax
    const char* fn[] = { "sum", "asum", "iamax" };
    cd reduce(int f, const std::vector<cd>& x)
    {
        cd r = 0;
        int best = 0;
        for (size_t i=0; i<x.size(); i++)
        {
            r += f == 0 ? x[i] : cd(mag(x[i]));
            if (mag(x[i]) > mag(x[best])) best = i;
        }
        return f == 2 ? cd(best) : r;
    }
    const UnaryFunctor& functor(int f)
    { return f == 0 ? (const UnaryFunctor&)sum : f == 1 ? (const UnaryFunctor&)asum : iamax; }

    void check(int f, Arr& x, int form)
    {
        int t = x.t;
        std::string what = std::string(fn[f]) + " of " + tname(t) + " " + ref::show(x.v);
        MC_NOTE("%s, form %d", what.c_str(), form);
        bool ok = f != 1 || t == TYPE_FLOAT || t == TYPE_DOUBLE;
        int cols = x.s.back(), rows = x.n / cols;
        std::vector<cd> want;
        for (int i=0; i<rows; i++)
            want.push_back(reduce(f, std::vector<cd>(x.was.begin() + x.off + i*cols,
                                                     x.was.begin() + x.off + (i+1)*cols)));
        int wt = f == 2 ? TYPE_LONG : t;
        Shape os = x.s;
        os.back() = 1;
        var r;
        bool threw = ref::throws([&] {
            if (form == 0) r = functor(f)(x.v);
            else
            {
                // Into something allocated already
                var o = os.size() == 1 ? ref::array(wt, std::vector<cd>(1, cd(55)))
                    : libube::view(vshape(os), ref::scalar(wt, 55));
                functor(f)(x.v, o);
                r = o;
            }
        });
        mc::step();
        MC_CHECK(threw == !ok, "throws", "%s %s", what.c_str(), threw ? "throws" : "does not throw");
        if (ok)
        {
            MC_CHECK(read(r) == want, "value", "%s is %s, should be %s", what.c_str(),
                     ref::show(r).c_str(), list(want).c_str());
            MC_CHECK(typeOf(r) == wt, "type", "%s is %s", what.c_str(), ref::show(r).c_str());
            if (form == 0 && os.size() > 1)
                MC_CHECK(shaped(r, os), "shape", "%s is %s", what.c_str(), ref::show(r).c_str());
            if (form == 0 && os.size() == 1 && t != TYPE_CDOUBLE)
                MC_CHECK((long)r.type() != TYPE_ARRAY, "shape", "%s is %s, not a single value",
                         what.c_str(), ref::show(r).c_str());
        }
        unchanged(x, "input", what);
        mc::state(what + char('0' + form));
    }

    void reductions()
    {
        static const std::vector<Shape> all = shapes(1, 3, 1, reductionSize());
        int f = mc::choose(3), t = mc::pick(types), how = mc::choose(3), form = mc::choose(2);
        const Shape& s = mc::pick(all);
        if (t == TYPE_CDOUBLE && s == Shape{1} && !how) return;   // a single value
        Arr x = make(t, s, how, [&](int i) { return value(t, i); });
        check(f, x, form);
    }

    // All vectors over a few values, with ties
    void vectors()
    {
        int f = mc::choose(3), t = mc::pick(types);
        int n = mc::range(2, mc::thorough() ? 7 : 5);
        static const cd re[] = { cd(1), cd(-2), cd(2), cd(0) };
        static const cd im[] = { cd(1,1), cd(-2,0), cd(0,2), cd(0,0) };
        std::vector<cd> v;
        for (int i=0; i<n; i++) v.push_back(t >= TYPE_CFLOAT ? mc::pick(im) : mc::pick(re));
        Arr x = make(t, { n }, 0, [&](int i) { return v[i]; });
        check(f, x, 0);
    }

    // Single values, whether variables or elements of an array of anything
    void singles()
    {
        static const int st[] = { TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE, TYPE_CHAR, TYPE_INT, TYPE_LONG };
        static const cd real[] = { cd(3), cd(-4), cd(0), cd(-2.5), cd(1) };
        static const cd cmplx[] = { cd(3, 4), cd(-3, 4), cd(0, -1), cd(-5, 12), cd(0) };
        int f = mc::choose(3), t = mc::pick(st), k = mc::choose(5), how = mc::choose(3), form = mc::choose(4);
        bool cx = t >= TYPE_CFLOAT;
        cd x = cx ? cmplx[k] : real[k];
        if (t < TYPE_FLOAT) x = std::floor(std::abs(x));
        var v = ref::scalar(t, x), box;
        if (how) { box = { "before", v, "after" }; }
        int wt = f == 0 ? t : f == 2 ? TYPE_LONG : (t == TYPE_CFLOAT ? TYPE_FLOAT : t == TYPE_CDOUBLE ? TYPE_DOUBLE : t);
        cd want = f == 0 ? x : f == 1 ? cd(std::abs(x)) : cd(0);
        bool ok = t >= TYPE_FLOAT;
        // Into another value: a variable, or an element
        var o = ref::scalar(wt, 55), obox = { "p", o, "q" }, m, r;
        m["p"] = "p"; m["q"] = o;
        std::string what = std::string(fn[f]) + " of " + ref::show(v) + (how ? " in an array" : "");
        MC_NOTE("%s, form %d", what.c_str(), form);
        bool threw = ref::throws([&] {
            var in;
            if (how == 2) { var e = box[1]; in = e.copy(); }
            switch (form)
            {
            case 0: r = how == 1 ? functor(f)(box[1]) : functor(f)(how ? in : v); break;
            case 1: how == 1 ? functor(f)(box[1], o) : functor(f)(how ? in : v, o); r = o; break;
            case 2: { var e = obox[1]; how == 1 ? functor(f)(box[1], e) : functor(f)(how ? in : v, e); r = obox.at(1).copy(); break; }
            case 3: { var e = m["q"]; how == 1 ? functor(f)(box[1], e) : functor(f)(how ? in : v, e); r = m.at(1).copy(); break; }
            }
        });
        mc::step();
        // Those that aren't of these types may still be refused, but not wrong
        if (ok) MC_CHECK(!threw, "throws", "%s throws", what.c_str());
        if (!threw)
        {
            MC_CHECK(read(r).size() == 1 && read(r)[0] == want, "value", "%s, form %d, is %s, should be %s", what.c_str(), form, ref::show(r).c_str(), ref::show(ref::scalar(wt, want)).c_str());
            MC_CHECK(typeOf(r) == wt, "type", "%s is %s", what.c_str(), ref::show(r).c_str());
        }
        MC_CHECK(read(v)[0] == x && (!how || read(box.at(1).copy())[0] == x), "input", "%s changes it to %s", what.c_str(), ref::show(v).c_str());
        mc::state(what + char('0' + form));
    }

    void products()
    {
        static const std::vector<Shape> left = shapes(1, 3, 1, 3), right = shapes(1, 3, 1, mc::thorough() ? 4 : 3);
        int t = mc::pick(types);
        const Shape& a = mc::pick(left);
        const Shape& b = mc::pick(right);
        int ha = mc::choose(2) * 2, hb = mc::choose(2), form = mc::choose(3);
        // Single values
        if (t == TYPE_CDOUBLE && ((a == Shape{1} && !ha) || (b == Shape{1} && !hb))) return;
        bool cx = t >= TYPE_CFLOAT;
        bool ok = b.size() <= 2 && b.size() <= a.size() && a.back() == b[0] && !(b.size() == 2 && cx);
        Arr x = make(t, a, ha, [&](int i) { return value(t, i); });
        Arr y = make(t, b, hb, [&](int i) { return value(t, i + 4); });
        std::string what = std::string(tname(t)) + " " + str(a) + " . " + str(b);
        MC_NOTE("%s, form %d, %d %d", what.c_str(), form, ha, hb);
        std::vector<cd> want;
        Shape os = a;
        if (ok)
        {
            int inner = a.back(), rows = x.n / inner, cols = b.size() == 2 ? b[1] : 1;
            os.back() = cols;
            for (int i=0; i<rows; i++)
                for (int j=0; j<cols; j++)
                {
                    cd r = 0;
                    for (int k=0; k<inner; k++)
                    {
                        cd p = x.get(i*inner + k), q = y.get(k*cols + j);
                        if (b.size() == 1) p = std::conj(p);
                        r += cd(p.real()*q.real() - p.imag()*q.imag(), p.real()*q.imag() + p.imag()*q.real());
                    }
                    want.push_back(r);
                }
        }
        var r;
        Arr o;
        bool threw = ref::throws([&] {
            switch (form)
            {
            case 0: r = dot(x.v, y.v); break;
            case 1:
                // Into a part of something else
                if (t == TYPE_CDOUBLE || os.size() > 1 || cx == false)
                    o = make(t, os.size() == 1 && ok ? Shape{1} : os, 3, [](int) { return cd(55); });
                else
                    o = make(t, { 1 }, 3, [](int) { return cd(55); });
                dot(x.v, y.v, o.v);
                r = o.v;
                break;
            case 2: dot(x.v, y.v, x.v); r = x.v; break;
            }
        });
        mc::step();
        MC_CHECK(threw == (!ok || form == 2), "conform", "%s, form %d, %s", what.c_str(), form,
                 threw ? "throws" : "does not throw");
        if (ok && form != 2)
        {
            MC_CHECK(read(r) == want, "value", "%s, form %d, of %s and %s is %s, should be %s", what.c_str(), form,
                     ref::show(x.v).c_str(), ref::show(y.v).c_str(), ref::show(r).c_str(), list(want).c_str());
            MC_CHECK(typeOf(r) == t, "type", "%s is %s", what.c_str(), ref::show(r).c_str());
            if (form == 0 && a.size() > 1)
                MC_CHECK(shaped(r, os), "shape", "%s is %s", what.c_str(), ref::show(r).c_str());
            if (form == 1)
            {
                for (size_t i=0; i<want.size(); i++) o.set(i, want[i]);
                unchanged(o, "outside", what);
            }
        }
        unchanged(x, "left", what);
        unchanged(y, "right", what);
        mc::state(what + char('0' + form) + char('0' + ha) + char('0' + hb));
    }

    // All small matrices: each element of the result depends on the right ones
    void unitMatrices()
    {
        int t = mc::pick(types);
        if (t >= TYPE_CFLOAT) return;
        int n = mc::thorough() ? 5 : 4;
        int m = mc::range(1, n), k = mc::range(1, n), p = mc::range(1, n);
        int i0 = mc::choose(m * k), j0 = mc::choose(k * p);
        Arr x = make(t, { m, k }, 0, [&](int i) { return cd(i == i0 ? 2 : 0); });
        Arr y = make(t, { k, p }, 0, [&](int i) { return cd(i == j0 ? 3 : 0); });
        MC_NOTE("%s %dx%d . %dx%d with %d and %d", tname(t), m, k, k, p, i0, j0);
        var r = dot(x.v, y.v);
        mc::step();
        MC_CHECK(shaped(r, { m, p }), "shape", "%dx%d . %dx%d is %s", m, k, k, p, ref::show(r).c_str());
        for (int i=0; i<m; i++) for (int j=0; j<p; j++)
        {
            double w = i0 / k == i && j0 % p == j && i0 % k == j0 / p ? 6 : 0;
            MC_CHECK(num(r(i, j)) == cd(w), "unit", "%dx%d . %dx%d with unit elements %d and %d: "
                     "element %d,%d is %s", m, k, k, p, i0, j0, i, j, fmt(num(r(i, j))).c_str());
        }
        mc::state(ref::show(r) + tname(t) + std::to_string(i0 * 100 + j0) + std::to_string(k));
    }

    void others()
    {
        int k = mc::choose(9), f = mc::choose(4);
        var v, w = ref::array(TYPE_FLOAT, { cd(1), cd(2) });
        switch (k)
        {
        case 0: v = "abc"; break; case 1: v = var({1, 2}); break; case 2: v = nil; break;
        case 3: v = var({"a", "b"}); break; case 4: v["a"] = 1; v["b"] = 2; break;
        case 5: v = 'a'; break; case 6: v = 1; break; case 7: v = ref::array(TYPE_LONG, { cd(1), cd(2) }); break;
        case 8: v = ref::array(TYPE_CDOUBLE, { cd(1), cd(2) }); if (f != 3) return; break;
        }
        std::string a = ref::show(v), b = ref::show(w);
        MC_NOTE("%s of %s", f == 3 ? "dot" : fn[f], a.c_str());
        var r = 5;
        bool threw = ref::throws([&] { r = f < 3 ? functor(f)(v) : dot(w, v); });
        mc::step();
        MC_CHECK(threw, "others", "%s of %s is %s", f == 3 ? "dot" : fn[f], a.c_str(), ref::show(r).c_str());
        MC_CHECK(ref::show(v) == a && ref::show(w) == b && ref::show(r) == ref::show(var(5)), "input",
                 "%s of %s left %s", f == 3 ? "dot" : fn[f], a.c_str(), ref::show(v).c_str());
        mc::state(a + fn[f % 3]);
    }
}

int main(int argc, char** argv)
{
    mc::add("singles", singles);
    mc::add("reductions", reductions);
    mc::add("vectors", vectors);
    mc::add("products", products);
    mc::add("unit-matrices", unitMatrices);
    mc::add("others", others, mc::LEAK);
    mc::add("sizes", big::reductions);
    mc::add("size of products", []{ big::products(mc::thorough() ? 65 : 33); });
    mc::bound("dimension_size", reductionSize());
    return mc::run(argc, argv, "C08", "model_checking");
}
