// C07: element-wise mathematical functions against the standard library.
#include "ref.h"
#include "bigops.h"
#include <lube/math.h>
using namespace ref;
using namespace libube;

namespace
{
    typedef std::vector<int> Shape;
    int prod(const Shape& s) { int p = 1; for (int i : s) p *= i; return p; }
    var vshape(const Shape& s) { return var((int)s.size(), s.data()); }

    enum { FLOOR, SIN, COS, TAN, ATAN, SQRT, LOG, EXP, REAL, IMAG, ABS, ARG, NORM, NFUN };
    const char* fname[] = { "floor", "sin", "cos", "tan", "atan", "sqrt", "log", "exp",
                            "real", "imag", "abs", "arg", "norm" };
    const UnaryFunctor* functor(int f)
    {
        switch (f)
        {
        case FLOOR: return &libube::floor; case SIN: return &libube::sin;
        case COS: return &libube::cos; case TAN: return &libube::tan;
        case ATAN: return &libube::atan; case SQRT: return &libube::sqrt;
        case LOG: return &libube::log; case EXP: return &libube::exp;
        case REAL: return &libube::real; case IMAG: return &libube::imag;
        case ABS: return &libube::abs; case ARG: return &libube::arg;
        }
        return &libube::norm;
    }
    bool method(int f, var& v)
    {
        switch (f)
        {
        case FLOOR: v.floor(); break; case SIN: v.sin(); break; case COS: v.cos(); break;
        case SQRT: v.sqrt(); break; case LOG: v.log(); break; case EXP: v.exp(); break;
        case REAL: v.real(); break; case IMAG: v.imag(); break; case ABS: v.abs(); break;
        case ARG: v.arg(); break; case NORM: v.norm(); break;
        default: return false;
        }
        return true;
    }
    template<class T> cd real(int f, T x)
    {
        switch (f)
        {
        case FLOOR: return std::floor(x); case SIN: return std::sin(x);
        case COS: return std::cos(x); case TAN: return std::tan(x);
        case ATAN: return std::atan(x); case SQRT: return std::sqrt(x);
        case LOG: return std::log(x); case EXP: return std::exp(x);
        case REAL: return x; case IMAG: return 0; case ABS: return std::abs(x);
        case ARG: return (T)std::arg(x);
        }
        return x * x;
    }
    template<class T> cd cmplx(int f, std::complex<T> x)
    {
        std::complex<T> r;
        switch (f)
        {
        case SIN: r = std::sin(x); break; case COS: r = std::cos(x); break;
        case TAN: r = std::tan(x); break; case ATAN: r = std::atan(x); break;
        case SQRT: r = std::sqrt(x); break; case LOG: r = std::log(x); break;
        case EXP: r = std::exp(x); break; case REAL: r = x.real(); break;
        case IMAG: r = x.imag(); break; case ABS: r = std::abs(x); break;
        case ARG: r = std::arg(x); break; case NORM: r = std::norm(x); break;
        }
        return cd(r.real(), r.imag());
    }
    cd expect(int t, int f, cd x)
    {
        switch (t)
        {
        case TYPE_FLOAT: return real(f, (float)x.real());
        case TYPE_DOUBLE: return real(f, x.real());
        case TYPE_CFLOAT: return cmplx(f, cf(x.real(), x.imag()));
        }
        return cmplx(f, x);
    }
    cd expectPow(int t, cd x, cd p)
    {
        switch (t)
        {
        case TYPE_FLOAT: return std::pow((float)x.real(), (float)p.real());
        case TYPE_DOUBLE: return std::pow(x.real(), p.real());
        case TYPE_CFLOAT: { cf r = std::pow(cf(x.real(), x.imag()), cf(p.real(), p.imag())); return cd(r.real(), r.imag()); }
        }
        return std::pow(x, p);
    }
    bool near(int t, cd a, cd b)
    {
        double eps = (t == TYPE_FLOAT || t == TYPE_CFLOAT) ? 1.2e-7 : 2.3e-16;
        auto nan = [](cd c) { return c.real() != c.real() || c.imag() != c.imag(); };
        if (nan(a) || nan(b)) return nan(a) && nan(b);
        return a == b || std::abs(a - b) <= 8 * eps * std::abs(b);
    }

    const std::vector<cd>& values(int t)
    {
        static const std::vector<cd> r = { 0.5, 0, -1, 2, -2.5, 10, 0.1, 3.25, 100, 1e-3, 1, -0.75 };
        static const std::vector<cd> c = { cd(0.5,0.25), cd(0,0), cd(-1,0), cd(0,1), cd(2,-3), cd(-2.5,0.5),
                                           cd(1,0), cd(0,-2), cd(3,4), cd(0.1,-0.1), cd(-1,-1), cd(10,0.5) };
        return t >= TYPE_CFLOAT ? c : r;
    }
    const int types[] = { TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE };
    int realOf(int t) { return t == TYPE_CFLOAT ? TYPE_FLOAT : t == TYPE_CDOUBLE ? TYPE_DOUBLE : t; }

    // Single values
    void singles()
    {
        int f = mc::choose(NFUN), t = mc::pick(types), form = mc::choose(5);
        cd x = as(t, mc::pick(values(t)));
        bool ok = !(f == FLOOR && t >= TYPE_CFLOAT);
        std::string what = std::string(fname[f]) + " of " + tname(t) + " " + fmt(x);
        MC_NOTE("%s, form %d", what.c_str(), form);
        cd want = expect(t, f, x);
        var v = ref::scalar(t, x), r;
        var arr = ref::array(t, { cd(1), x, cd(2) });
        const UnaryFunctor& F = *functor(f);
        bool kept = true, typed = true, done = true;
        int wt = f >= REAL ? realOf(t) : t;
        bool threw = ref::throws([&] {
            switch (form)
            {
            case 0: r = F(v); break;
            case 1: F(v, r); break;                    // into nil
            case 2: F(v, v); r = v; kept = !ok; break;
            case 3: done = method(f, v); r = v; kept = !ok; break;
            case 4:
            {
                // An element of an array, in place
                var e = arr.at(1);
                F(e, e);
                r = arr.at(1).copy();
                if (wt != t) wt = t;
                break;
            }
            }
        });
        mc::step();
        if (!done) return;
        MC_CHECK(threw == !ok, "throws", "%s, form %d, %s", what.c_str(), form,
                 threw ? "throws" : "does not throw");
        if (ok)
        {
            MC_CHECK(near(t, num(r), want), "value", "%s, form %d, is %s, should be %s",
                     what.c_str(), form, ref::show(r).c_str(), fmt(want).c_str());
            int gt = (long)r.type() == TYPE_ARRAY ? (int)(long)r.atype() : (int)(long)r.type();
            MC_CHECK(gt == wt, "type", "%s, form %d, is of type %s, should be %s", what.c_str(),
                     form, tname(gt), tname(wt));
        }
        if (kept)
            MC_CHECK(num(v) == x, "input", "%s, form %d, changed the input to %s", what.c_str(),
                     form, ref::show(v).c_str());
        MC_CHECK(num(arr.at(0)) == cd(1) && num(arr.at(2)) == cd(2) && arr.size() == 3,
                 "neighbour", "%s, form %d, changed other elements: %s", what.c_str(), form,
                 ref::show(arr).c_str());
        mc::state(what + char('0' + form));
    }

    std::vector<Shape> shapes()
    {
        std::vector<Shape> r = { {1}, {2}, {3}, {5}, {12} };
        for (int i=1; i<=3; i++) for (int j=1; j<=3; j++) r.push_back({i, j});
        for (int i=1; i<=2; i++) for (int j=1; j<=3; j++) for (int k=1; k<=2; k++) r.push_back({i, j, k});
        r.push_back({3, 2, 2});
        return r;
    }

    // Arrays and views
    void arrays()
    {
        static const std::vector<Shape> all = shapes();
        int f = mc::choose(NFUN), t = mc::pick(types);
        const Shape& s = mc::pick(all);
        int how = mc::choose(2);                       // whole, or with guard elements
        int form = mc::choose(5);
        int start = mc::choose(3) * 4;
        const std::vector<cd>& vals = values(t);
        int n = prod(s), off = how ? 1 : 0, total = how ? n + 3 : n;
        std::vector<cd> was, want;
        for (int i=0; i<total; i++)
            was.push_back(as(t, vals[(start + i - off + 24) % vals.size()]));
        for (int i=0; i<n; i++) want.push_back(expect(t, f, was[off+i]));
        var base = ref::array(t, was);
        var v = (!how && s.size() == 1) ? base : base.view(vshape(s), off);
        // A lone cdouble is a single value
        if (t == TYPE_CDOUBLE && !how && s.size() == 1 && n == 1) return;
        bool ok = !(f == FLOOR && t >= TYPE_CFLOAT);
        std::string what = std::string(fname[f]) + " of " + tname(t) + " " + ref::show(v);
        MC_NOTE("%s, form %d", what.c_str(), form);
        const UnaryFunctor& F = *functor(f);
        var r;
        int wt = t;
        bool inplace = false, done = true, shaped = true;
        bool threw = ref::throws([&] {
            switch (form)
            {
            case 0: r = F(v); if (f >= REAL) wt = realOf(t); break;
            case 1: F(v, v); r = v; inplace = true; break;
            case 2: done = method(f, v); r = v; inplace = true; break;
            case 3:
            {
                // Into something of the same shape
                var o = libube::view(vshape(s), ref::scalar(t, 0));
                F(v, o);
                r = o;
                break;
            }
            case 4:
            {
                // Into a view of something larger, real if possible
                if (f >= REAL) wt = realOf(t);
                std::vector<cd> g(n + 4, cd(77));
                var o = ref::array(wt, g);
                var ov = o.view({n}, 2);
                F(v, ov);
                r = ov;
                shaped = false;
                for (int i : { 0, 1, n+2, n+3 })
                    if (num(o.at(i)) != cd(77))
                        mc::violate("outside", "%s wrote outside its output: %s", what.c_str(),
                                    ref::show(o).c_str());
                break;
            }
            }
        });
        mc::step();
        if (!done) return;
        MC_CHECK(threw == !ok, "throws", "%s, form %d, %s", what.c_str(), form,
                 threw ? "throws" : "does not throw");
        if (ok)
        {
            MC_CHECK(r.size() == n && (int)(long)r.atype() == wt, "type", "%s, form %d, is %s",
                     what.c_str(), form, ref::show(r).c_str());
            if (shaped)
            {
                bool same = r.dim() == (int)s.size();
                for (size_t i=0; same && i<s.size(); i++) same = r.shape(i) == s[i];
                MC_CHECK(same, "shape", "%s, form %d, is %s", what.c_str(), form, ref::show(r).c_str());
            }
            for (int i=0; i<n; i++)
            {
                MC_CHECK(near(t, num(r.at(i)), want[i]), "value", "%s, form %d, is %s, element %d"
                         " should be %s", what.c_str(), form, ref::show(r).c_str(), i,
                         fmt(want[i]).c_str());
                if (inplace) was[off+i] = want[i];
            }
        }
        for (int i=0; i<total; i++)
            MC_CHECK(near(t, num(base.at(i)), was[i]), "input", "%s, form %d, leaves %s in the"
                     " underlying array", what.c_str(), form, ref::show(base).c_str());
        mc::state(what + char('0' + form));
    }

    // Arrays within arrays
    void nested()
    {
        int f = mc::choose(NFUN), t = mc::pick(types), form = mc::choose(2);
        int kind = mc::choose(3);
        if (f == FLOOR && t >= TYPE_CFLOAT) return;
        if (f >= REAL && form == 0) return;            // only in place
        const std::vector<cd>& vals = values(t);
        auto val = [&](int i) { return as(t, vals[i % vals.size()]); };
        // Leaves in order
        var a = ref::array(t, { val(0), val(1), val(2) }), v;
        v.resize(3);
        v[0] = a.copy();
        v[1] = ref::scalar(t, val(3));
        if (kind == 0) v[2] = a.copy();
        if (kind == 1) { var w; w.resize(2); w[0] = ref::scalar(t, val(4)); w[1] = a.copy(); v[2] = w; }
        if (kind == 2) v[2] = ref::array(t, { val(0), val(1), val(2), val(3), val(4), val(5) }).view({2, 3}, 0);
        std::string before = ref::show(v);
        MC_NOTE("%s of %s, form %d", fname[f], before.c_str(), form);
        std::vector<cd> want, got;
        std::function<void(const var&, std::vector<cd>&)> leaves =
            [&](const var& x, std::vector<cd>& o) {
                if ((long)x.type() != TYPE_ARRAY || x.size() == 1) { o.push_back(num(x)); return; }
                for (int i=0; i<x.size(); i++) leaves(x.at(i), o);
            };
        leaves(v, want);
        for (auto& c : want) c = expect(t, f, c);
        var r;
        bool threw = ref::throws([&] {
            if (form == 0) r = (*functor(f))(v);
            else { (*functor(f))(v, v); r = v; }
        });
        mc::step();
        if (form == 0)
        {
            // There is nowhere to put nested results unless it can be made
            if (threw)
            {
                MC_CHECK(ref::show(v) == before, "input", "%s of %s threw and left %s", fname[f],
                         before.c_str(), ref::show(v).c_str());
                return;
            }
        }
        MC_CHECK(!threw, "throws", "%s of %s throws", fname[f], before.c_str());
        leaves(r, got);
        MC_CHECK(got.size() == want.size(), "nested", "%s of %s is %s", fname[f], before.c_str(),
                 ref::show(r).c_str());
        for (size_t i=0; i<got.size(); i++)
            MC_CHECK(near(t, got[i], want[i]), "nested", "%s of %s is %s, leaf %d should be %s",
                     fname[f], before.c_str(), ref::show(r).c_str(), (int)i, fmt(want[i]).c_str());
        if (form == 0)
            MC_CHECK(ref::show(v) == before, "input", "%s of %s changed it to %s", fname[f],
                     before.c_str(), ref::show(v).c_str());
        mc::state(before + fname[f]);
    }

    // Raising to a power
    void powers()
    {
        static const std::vector<Shape> all = { {}, {1}, {2}, {4}, {2,2}, {1,3}, {2,1,2} };
        static const int ptypes[] = { TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE, TYPE_VAR };
        int t = mc::pick(types);
        const Shape& s = mc::pick(all);
        int pt = mc::pick(ptypes), form = mc::choose(4);
        static const double ps[] = { 2, 0, -1, 3, 0.5 };
        cd p = mc::pick(ps);
        if (pt >= TYPE_CFLOAT && pt <= TYPE_CDOUBLE && t >= TYPE_CFLOAT) p += cd(0, 1);
        const std::vector<cd>& vals = values(t);
        int n = prod(s);
        std::vector<cd> was, want;
        int shift = mc::choose(3) * 4;
        for (int i=0; i<n; i++) was.push_back(as(t, vals[(i + shift) % vals.size()]));
        var base = ref::array(t, was);
        var v = s.size() == 0 ? ref::scalar(t, was[0]) : s.size() == 1 ? base : base.view(vshape(s), 0);
        var e;
        if (pt == TYPE_VAR)
        {
            if (s.empty()) return;
            p = was[n-1];                               // element of the array itself
        }
        else
        {
            e = ref::scalar(pt, p);
            p = as(t, as(pt, p));
        }
        std::string what = std::string(tname(t)) + " " + ref::show(v) + " to the power " + fmt(p);
        MC_NOTE("%s (%s), form %d", what.c_str(), pt == TYPE_VAR ? "element" : tname(pt), form);
        for (int i=0; i<n; i++) want.push_back(expectPow(t, was[i], p));
        auto arg = [&]() -> var { return pt == TYPE_VAR ? base.at(n-1) : e; };
        var r;
        bool inplace = false;
        switch (form)
        {
        case 0: r = libube::pow(v, arg()); break;
        case 1: libube::pow(v, arg(), v); r = v; inplace = true; break;
        case 2: v.pow(arg()); r = v; inplace = true; break;
        case 3:
            if (s.empty()) { libube::pow(v, arg(), r); break; }
            r = libube::view(vshape(s), ref::scalar(t, 0));
            libube::pow(v, arg(), r);
            break;
        }
        mc::step();
        MC_CHECK(r.size() == n, "pow", "%s, form %d, is %s", what.c_str(), form, ref::show(r).c_str());
        for (int i=0; i<n; i++)
        {
            cd g = s.empty() ? num(r) : num(r.at(i));
            MC_CHECK(near(t, g, want[i]) || std::abs(g - want[i]) < 1e-5 * std::abs(want[i]), "pow", "%s, form %d, is %s, element %d"
                     " should be %s", what.c_str(), form, ref::show(r).c_str(), i, fmt(want[i]).c_str());
            if (!inplace)
                MC_CHECK((s.empty() ? num(v) : num(v.at(i))) == was[i], "input",
                         "%s, form %d, changed the input to %s", what.c_str(), form, ref::show(v).c_str());
        }
        mc::state(what + char('0' + form) + char('0' + pt));
    }

    // Functions that are not defined throw, and change nothing
    void undefined()
    {
        int f = mc::choose(NFUN + 1), k = mc::choose(9), form = mc::choose(2);
        var v;
        switch (k)
        {
        case 0: v = 1; break; case 1: v = 'a'; break; case 2: v = 1L; break;
        case 3: v = "abc"; break; case 4: v = var({1, 2, 3}); break;
        case 5: v = ref::array(TYPE_LONG, { cd(1), cd(2) }); break;
        case 6: v = nil; break; case 7: v = var({"a", "b"}); break;
        case 8: { v.resize(3); v[0] = 1.0f; v[1] = "a"; v[2] = 1.0f; break; }
        }
        std::string before = ref::show(v);
        MC_NOTE("%s of %s, form %d", f == NFUN ? "pow" : fname[f], before.c_str(), form);
        var r = 5;
        bool threw = ref::throws([&] {
            if (f == NFUN) { if (form) libube::pow(v, 2, v); else r = libube::pow(v, 2); }
            else if (form) (*functor(f))(v, v); else r = (*functor(f))(v);
        });
        mc::step();
        if (k != 6)
            MC_CHECK(threw, "undefined", "%s of %s gives %s", f == NFUN ? "pow" : fname[f],
                     before.c_str(), ref::show(form ? v : r).c_str());
        if (k != 8 || form == 0)
            MC_CHECK(ref::show(v) == before, "input", "%s of %s left %s", f == NFUN ? "pow" : fname[f],
                     before.c_str(), ref::show(v).c_str());
        // Outputs of the wrong size
        if (k == 0 && f < NFUN && form == 0)
        {
            int n = mc::range(2, 4), m = mc::range(2, 4);
            if (n == m) return;
            var a = libube::view({n}, 1.0f), b = libube::view({m}, 2.0f);
            for (int i=0; i<n; i++) a.at(i) = 1.0f;
            for (int i=0; i<m; i++) b.at(i) = 2.0f;
            std::string x = ref::show(a), y = ref::show(b);
            bool t2 = ref::throws([&] { (*functor(f))(a, b); });
            MC_CHECK(t2 && ref::show(a) == x && ref::show(b) == y, "size", "%s of %d elements into %d"
                     " %s and leaves %s and %s", fname[f], n, m, t2 ? "throws" : "does not throw",
                     ref::show(a).c_str(), ref::show(b).c_str());
        }
        mc::state(before + char('0' + f) + char('0' + form));
    }
}

int main(int argc, char** argv)
{
    mc::add("singles", singles, mc::LEAK);
    mc::add("arrays", arrays);
    mc::add("nested", nested, mc::LEAK);
    mc::add("powers", powers);
    mc::add("undefined", undefined, mc::LEAK);
    mc::add("sizes", big::functions);
    mc::bound("values_per_type", 12);
    return mc::run(argc, argv, "C07", "model_checking", {
        "the functions of the C++ library that the reference calls are right" });
}
