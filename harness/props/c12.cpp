// C12: polynomial roots and coefficients.
#include "arr.h"
#include "big.h"
#include <lube/math.h>
using namespace ref;
using namespace libube;

namespace
{
    const int types[] = { TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE };
    typedef std::vector<cd> V;
    int ctype(int t) { return t == TYPE_FLOAT ? (int)TYPE_CFLOAT : t == TYPE_DOUBLE ? (int)TYPE_CDOUBLE : t; }

    V vieta(const V& r)
    {
        V p(1, 1);
        for (auto z : r)
        {
            p.push_back(0);
            for (size_t i=p.size()-1; i>0; i--) p[i] -= z * p[i-1];
        }
        return p;
    }

    // Are these the roots of p, to rounding error?
    void checkRoots(const V& p, const V& z, int t, const std::string& what)
    {
        double eps = epsOf(t) * 64 * p.size(), big = 1;
        for (auto c : p) big = std::max(big, std::abs(c / p[0]));
        MC_CHECK(z.size() + 1 == p.size(), "count", "%s: %zu roots", what.c_str(), z.size());
        for (auto x : z)
        {
            cd y = 0;
            double scale = 0;
            for (auto c : p) { y = y * x + c / p[0]; scale = scale * std::abs(x) + 1; }
            MC_CHECK(std::abs(y) <= eps * big * scale, "residual", "%s: %s is given as a root of %s but gives %s",
                     what.c_str(), fmt(x).c_str(), list(p).c_str(), fmt(y).c_str());
            // Has a conjugate
            int same = 0, conj = 0;
            for (auto w : z) { same += w == x; conj += w == std::conj(x); }
            MC_CHECK(same == conj, "conjugate", "%s: roots %s are not conjugate pairs", what.c_str(), list(z).c_str());
        }
        V q = vieta(z);
        for (size_t i=0; i<p.size(); i++)
            MC_CHECK(std::abs(q[i] - p[i] / p[0]) <= eps * big * big, "vieta", "%s: %s have coefficients %s, should be %s",
                     what.c_str(), list(z).c_str(), list(q).c_str(), list(p).c_str());
    }

    void polynomials(int maxdeg, const std::vector<double>& coef)
    {
        int t = mc::choose(2) ? TYPE_FLOAT : TYPE_DOUBLE;
        int deg = mc::range(0, maxdeg), how = mc::choose(2), form = mc::choose(2);
        V p;
        for (int i=0; i<=deg; i++)
        {
            p.push_back(mc::pick(coef));
            if (!i && p[0] == 0.0) return;
        }
        Arr x = make(t, { deg + 1 }, how, [&](int i) { return p[i]; });
        std::string what = std::string("roots of ") + tname(t) + " " + list(p);
        MC_NOTE("%s", what.c_str());
        var r;
        Arr o;
        bool threw = ref::throws([&] {
            if (form) { o = make(ctype(t), { std::max(deg, 1) }, 1, [](int) { return cd(55); }); roots(x.v, o.v); r = o.v; }
            else r = roots(x.v);
        });
        mc::step();
        // A constant has no roots, which may or may not be an error
        MC_CHECK(deg == 0 ? threw || !form : !threw, "throws", "%s %s", what.c_str(), threw ? "throws" : "does not throw");
        unchanged(x, "input", what);
        if (deg == 0)
        {
            MC_CHECK(threw || !r.defined() || r.size() == 0, "constant", "%s: %s", what.c_str(), ref::show(r).c_str());
            return;
        }
        MC_CHECK((int)(long)r.atype() == ctype(t) && shaped(r, { deg }), "shape", "%s is %s", what.c_str(), ref::show(r).c_str());
        V z = read(r);
        checkRoots(p, z, t, what);
        if (form)
        {
            for (int i=0; i<deg; i++) o.set(i, z[i]);
            unchanged(o, "outside", what);
        }
        // Back again
        V want = vieta(z);
        var q = poly(r);
        V got = read(q);
        MC_CHECK(got.size() == p.size() && shaped(q, { deg + 1 }), "poly", "%s: poly gives %s", what.c_str(), ref::show(q).c_str());
        double big = 1;
        for (auto c : want) big = std::max(big, std::abs(c));
        for (int i=0; i<=deg; i++)
            MC_CHECK(std::abs(got[i] - want[i]) <= epsOf(t) * 64 * big * big, "poly", "%s: poly gives %s, should be %s",
                     what.c_str(), list(got).c_str(), list(want).c_str());
        mc::state(what);
    }

    // Coefficients from small integer roots are exact
    void fromRoots(int maxn)
    {
        int t = mc::pick(types), n = mc::range(1, maxn), how = mc::choose(2), form = mc::choose(2);
        if (t == TYPE_CDOUBLE && n == 1 && !how) return;
        static const cd re[] = { -3, -1, 0, 0.5, 2 };
        static const cd im[] = { -1, 0, cd(0, 1), cd(1, -2), 0.5 };
        V z;
        for (int i=0; i<n; i++) z.push_back(t < TYPE_CFLOAT ? mc::pick(re) : mc::pick(im));
        Arr x = make(t, { n }, how, [&](int i) { return z[i]; });
        std::string what = std::string("poly of ") + tname(t) + " " + list(z);
        MC_NOTE("%s", what.c_str());
        var r;
        Arr o;
        if (form) { o = make(t, { n + 1 }, 2, [](int) { return cd(55); }); poly(x.v, o.v); r = o.v; }
        else r = poly(x.v);
        mc::step();
        V want = vieta(z);
        MC_CHECK(shaped(r, { n + 1 }) && (int)(long)r.atype() == t && read(r) == want, "poly", "%s is %s, should be %s",
                 what.c_str(), ref::show(r).c_str(), list(want).c_str());
        unchanged(x, "input", what);
        if (form) { for (int i=0; i<=n; i++) o.set(i, want[i]); unchanged(o, "outside", what); }
        mc::state(what);
    }

    // Rows of larger arrays
    void rows()
    {
        int t = mc::choose(2) ? TYPE_FLOAT : TYPE_DOUBLE;
        static const std::vector<Shape> lead = { {1}, {2}, {3}, {1,2}, {2,1}, {2,2} };
        Shape l = mc::pick(lead);
        int n = mc::range(2, 4), how = mc::choose(2) * 2, form = mc::choose(3);
        static const double c[] = { 1, -1, 2, 0.5, -3 };
        int off = mc::choose(5), R = prod(l);
        Shape s = l, os = l;
        s.push_back(n); os.push_back(n - 1);
        auto f = [&](int i) { return cd(c[(i * i + i / n + off) % 5]); };
        Arr x = make(t, s, how, f);
        std::string what = std::string("rows, form ") + char('0' + form) + ", of " + tname(t) + " " + str(s);
        MC_NOTE("%s", what.c_str());
        var r;
        Arr o;
        if (form == 0) r = roots(x.v);
        else if (form == 1) { o = make(ctype(t), os, 3, [](int) { return cd(55); }); roots(x.v, o.v); r = o.v; }
        else { os.back() = n + 1; r = poly(x.v); }
        mc::step();
        MC_CHECK(shaped(r, os), "rows", "%s gives %s", what.c_str(), ref::show(r).c_str());
        V z = read(r);
        int w = os.back();
        for (int i=0; i<R; i++)
        {
            V p(x.was.begin() + x.off + i*n, x.was.begin() + x.off + (i+1)*n);
            V q(z.begin() + i*w, z.begin() + (i+1)*w);
            if (form < 2) checkRoots(p, q, t, what + " row " + std::to_string(i));
            else MC_CHECK(q == vieta(p), "rows", "%s row %d: %s", what.c_str(), i, list(q).c_str());
        }
        unchanged(x, "input", what);
        mc::state(what + std::to_string(off));
    }

    // Operands or outputs that do not fit
    void wrong()
    {
        bool either = false;
        bool isRoots = mc::flip();
        int t = mc::range(TYPE_CHAR, TYPE_CDOUBLE), rowsI = mc::choose(3), n = mc::range(1, 4);
        bool out = mc::flip();
        Shape s = rowsI ? Shape{ rowsI, n } : Shape{ n };
        if (t == TYPE_CDOUBLE && s == Shape{1}) return;
        Arr x = make(t, s, 1, [](int i) { return cd(i + 1); }), o;
        bool ok = isRoots ? (t == TYPE_FLOAT || t == TYPE_DOUBLE) && n > 1 : t >= TYPE_FLOAT;
        if (out)
        {
            int ot = mc::range(TYPE_CHAR, TYPE_CDOUBLE), rowsO = mc::choose(3), m = mc::range(1, 5);
            Shape os = rowsO ? Shape{ rowsO, m } : Shape{ m };
            o = make(ot, os, 1, [](int i) { return cd(i + 50); });
            // The same number of rows, maybe with another shape
            ok = ok && m == (isRoots ? n - 1 : n + 1) && std::max(rowsI, 1) == std::max(rowsO, 1)
                && ot == (isRoots ? ctype(t) : t);
            // A matrix of one row may or may not be taken for a vector
            either = rowsI != rowsO;
        }
        std::string what = std::string(isRoots ? "roots" : "poly") + " of " + ref::show(x.v)
            + (out ? " into " + ref::show(o.v) : "");
        MC_NOTE("%s", what.c_str());
        bool threw = ref::throws([&] {
            if (out) { if (isRoots) roots(x.v, o.v); else poly(x.v, o.v); }
            else var r = isRoots ? roots(x.v) : poly(x.v);
        });
        mc::step();
        if (isRoots && n == 1 && (t == TYPE_FLOAT || t == TYPE_DOUBLE) && !out) return;
        MC_CHECK(threw == !ok || (ok && either), "wrong", "%s %s", what.c_str(), threw ? "throws" : "does not throw");
        unchanged(x, "input", what);
        if (out && threw && !(ok && either)) unchanged(o, "output", what + ", which throws,");
        mc::state(what);
    }

    // Degrees beyond those of all polynomials; well conditioned or exact
    void degrees(int max)
    {
        int t = mc::choose(2) ? TYPE_FLOAT : TYPE_DOUBLE, n = mc::range(2, max), f = mc::choose(3);
        std::string what = std::string(f == 0 ? "roots of unity" : f == 1 ? "poly of signs" : "roots of z^n - 2^n") + ", " + tname(t) + ", " + std::to_string(n);
        MC_NOTE("%s", what.c_str());
        mc::step();
        if (f == 1)
        {
            if (n > 20) mc::prune();
            V z(n);
            for (int i=0; i<n; i++) z[i] = i % 5 == 4 ? 0 : (i * 7 + n) % 3 ? 1 : -1;
            var r = poly(ref::array(t, z));
            MC_CHECK(read(r) == vieta(z) && (int)(long)r.atype() == t, "large poly", "%s is %s", what.c_str(), ref::show(r).c_str());
        }
        else
        {
            V p(n + 1);
            double k = f ? 2 : 1;
            p[0] = 1; p[n] = -std::pow(k, n);
            if (f && n > 20) mc::prune();
            var a = ref::array(t, p), r = roots(a);
            V z = read(r);
            MC_CHECK((int)z.size() == n && (int)(long)r.atype() == ctype(t), "large roots", "%s: %zu roots", what.c_str(), z.size());
            for (int i=0; i<n; i++)
            {
                cd w = std::polar(k, 2 * M_PI * i / n);
                int near = 0;
                for (auto x : z) near += std::abs(x - w) < (t == TYPE_FLOAT ? 1e-3 : 1e-9) * k;
                MC_CHECK(near == 1, "large roots", "%s: %d of %s are near %s", what.c_str(), near, list(z).c_str(), fmt(w).c_str());
            }
            MC_CHECK(read(a) == p, "large input", "%s changes its input", what.c_str());
        }
        mc::state(what);
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    std::vector<double> coef = { 0, 1, -1, 2, 0.5, -3 };
    if (th) coef.push_back(5);
    mc::add("polynomials", [=]{ polynomials(th ? 5 : 4, coef); });
    mc::add("from-roots", [=]{ fromRoots(th ? 6 : 5); });
    mc::add("rows", rows);
    mc::add("wrong", wrong);
    mc::add("degrees", [=]{ degrees(th ? 60 : 40); });
    mc::bound("degree", th ? 5 : 4);
    return mc::run(argc, argv, "C12", "model_checking", {"LAPACK is used as installed"});
}
