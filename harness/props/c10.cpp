// C10: transpose, concatenate, set and swap move data exactly.
// sources: adhoc.cc
#include "arr.h"
#include "bigops.h"
#include <lube/math.h>
using namespace ref;
using namespace libube;

extern const UnaryFunctor* adhocTranspose;

namespace
{
    const int types[] = { TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE };
    const int allTypes[] = { TYPE_CHAR, TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE };
    cd value(int t, int i) { return t >= TYPE_CFLOAT ? cd(i + 1, -i) : cd(i + 1); }
    bool lone(int t, const Shape& s, int how) { return t == TYPE_CDOUBLE && s == Shape{1} && !how; }

    void transposes(int maxn2, int maxn3)
    {
        static const std::vector<Shape> all = [&] {
            auto r = shapes(1, 1, 1, 3), b = shapes(2, 2, 1, maxn2), c = shapes(3, 3, 1, maxn3);
            r.insert(r.end(), b.begin(), b.end());
            r.insert(r.end(), c.begin(), c.end());
            return r;
        }();
        const UnaryFunctor& T = mc::choose(2) ? *adhocTranspose : libube::transpose;
        bool builtin = &T == &libube::transpose;
        const Shape& s = mc::pick(all);
        int t = mc::pick(types), how = mc::choose(2) * 2, form = mc::choose(5);
        if (lone(t, s, how)) return;
        Arr x = make(t, s, how, [&](int i) { return value(t, i); });
        int d = s.size();
        bool ok = d > 1 && t < TYPE_CFLOAT;
        Shape ts = s;
        std::vector<cd> want;
        int rows = d > 1 ? s[d-2] : 1, cols = s[d-1];
        if (d > 1) std::swap(ts[d-1], ts[d-2]);
        for (int i=0; i<x.n; i++)
        {
            // Element i of the result
            int m = i / (rows*cols), r = i % (rows*cols);
            want.push_back(x.get(m*rows*cols + (r % rows) * cols + r / rows));
        }
        std::string what = std::string(builtin ? "transpose" : "portable transpose") + " of "
            + tname(t) + " " + str(s);
        MC_NOTE("%s, form %d%s", what.c_str(), form, how ? ", in a larger array" : "");
        var r;
        Arr o;
        bool wrong = false;
        bool threw = ref::throws([&] {
            switch (form)
            {
            case 0: r = T(x.v); break;
            case 1: T(x.v, x.v); r = x.v; break;
            case 2:
                // In place, twice
                T(x.v, x.v); T(x.v, x.v); r = x.v; break;
            case 3: o = make(t, ts, 3, [](int) { return cd(55); }); T(x.v, o.v); r = o.v; break;
            case 4:
                // The wrong shape of output, unless that is the right one
                o = make(t, s, 3, [](int) { return cd(55); });
                wrong = s != ts;
                T(x.v, o.v); r = o.v;
                break;
            }
        });
        mc::step();
        MC_CHECK(threw == (!ok || wrong), "throws", "%s, form %d, %s", what.c_str(), form, threw ? "throws" : "does not throw");
        if (threw)
        {
            MC_CHECK(shaped(x.v, s), "shape", "%s, form %d, failed and left %s", what.c_str(), form, ref::show(x.v).c_str());
            if (form > 2) unchanged(o, "output", what);
        }
        else if (form == 2)
            MC_CHECK(shaped(r, s) && exact(read(r), std::vector<cd>(x.was.begin() + x.off, x.was.begin() + x.off + x.n)),
                     "twice", "%s, twice, is %s", what.c_str(), ref::show(r).c_str());
        else
        {
            MC_CHECK(shaped(r, ts) && exact(read(r), want), "value", "%s, form %d, is %s, should be %s %s",
                     what.c_str(), form, ref::show(r).c_str(), str(ts).c_str(), list(want).c_str());
            // By indices too
            if (d == 2)
                for (int i=0; i<rows; i++) for (int j=0; j<cols; j++)
                    MC_CHECK(num(r(j, i)) == value(t, i*cols + j), "value", "%s, form %d, element %d,%d",
                             what.c_str(), form, j, i);
            if (form > 2)
            {
                for (int i=0; i<x.n; i++) o.set(i, want[i]);
                unchanged(o, "outside", what);
            }
        }
        if (!threw && form == 1) for (int i=0; i<x.n; i++) x.set(i, want[i]);
        unchanged(x, "input", what);
        mc::state(what + char('0' + form) + char('0' + how));
    }

    void concatenates()
    {
        static const std::vector<Shape> all = [] {
            auto r = shapes(1, 1, 1, 4), b = shapes(2, 2, 1, 2), c = shapes(3, 3, 1, 2);
            r.insert(r.end(), b.begin(), b.end());
            r.insert(r.end(), c.begin(), c.end());
            r.push_back({2, 3}); r.push_back({3, 1}); r.push_back({3, 2});
            return r;
        }();
        int n = mc::range(1, 3);
        int t = mc::pick(types);
        int mix = mc::choose(2);                       // the last of another type
        int how = mc::choose(2);
        if (n == 3 && (how != (t & 1) || mix)) return;
        if (n == 1 && mix) return;
        Arr a[3];
        bool ok = true;
        int inner = 0;
        var arg;
        arg.resize(n);
        for (int i=0; i<n; i++)
        {
            const Shape& s = mc::pick(all);
            int ti = mix && i == n-1 ? (t == TYPE_FLOAT ? TYPE_DOUBLE : TYPE_FLOAT) : t;
            if (lone(ti, s, how)) return;
            a[i] = make(ti, s, how, [&](int k) { return value(ti, 10*i + k); });
            inner += s.back();
            arg[i] = a[i].v;
            if (i)
            {
                if (s.size() != a[0].s.size()) ok = false;
                else for (size_t d=0; d+1<s.size(); d++) if (s[d] != a[0].s[d]) ok = false;
            }
        }
        if (mix) ok = false;
        std::string what = "concatenate " + ref::show(arg);
        MC_NOTE("%s", what.c_str());
        var r;
        bool threw = ref::throws([&] { r = concatenate(arg); });
        mc::step();
        MC_CHECK(threw == !ok, "conform", "%s %s", what.c_str(), threw ? "throws" : "does not throw");
        if (ok)
        {
            Shape os = a[0].s;
            os.back() = inner;
            std::vector<cd> want;
            for (int row=0; row < prod(os) / inner; row++)
                for (int i=0; i<n; i++)
                    for (int k=0; k<a[i].s.back(); k++) want.push_back(a[i].get(row * a[i].s.back() + k));
            MC_CHECK(shaped(r, os) && read(r) == want && (int)(long)r.atype() == t, "value", "%s is %s, should be %s %s",
                     what.c_str(), ref::show(r).c_str(), str(os).c_str(), list(want).c_str());
            // ..and is independent
            r.at(0) = ref::scalar(t, 99);
        }
        for (int i=0; i<n; i++) unchanged(a[i], "input", what);
        mc::state(what);
    }

    bool trailing(const Shape& a, const Shape& b)
    {
        if (b.size() > a.size()) return false;
        for (size_t i=1; i<=b.size(); i++)
            if (a[a.size()-i] != b[b.size()-i]) return false;
        return true;
    }

    void sets()
    {
        static const std::vector<Shape> left = shapes(1, 3, 1, 3);
        static const std::vector<Shape> right = [] { auto r = shapes(1, 3, 1, 3); r.push_back({}); return r; }();
        int t = mc::pick(allTypes), form = mc::choose(2), how = mc::choose(2);
        const Shape& s = mc::pick(left);
        const Shape& u = mc::pick(right);
        int ut = t;
        if (u.empty()) { ut = mc::pick(allTypes); if (ut == TYPE_CHAR && t != TYPE_CHAR) return; }
        if (lone(t, s, how) || (u.size() && lone(ut, u, how))) return;
        Arr x = make(t, s, how ? 2 : 0, [&](int i) { return value(t, i); }), y;
        var v;
        bool single = u.empty() || u == Shape{1};
        if (u.empty()) v = ref::scalar(ut, 7);
        else { y = make(ut, u, how, [&](int i) { return value(t, 40 + i); }); v = y.v; }
        std::string what = "set " + std::string(tname(t)) + " " + str(s) + " to " + ref::show(v);
        MC_NOTE("%s, form %d", what.c_str(), form);
        bool ok = single || trailing(s, u);
        std::vector<cd> want;
        for (int i=0; i<x.n; i++) want.push_back(u.empty() ? as(t, 7) : y.get(i % y.n));
        var r;
        bool threw = ref::throws([&] {
            if (form == 0) r = libube::set(x.v, v);
            else { libube::set(x.v, v, x.v); r = x.v; }
        });
        mc::step();
        MC_CHECK(threw == !ok, "conform", "%s, form %d, %s", what.c_str(), form, threw ? "throws" : "does not throw");
        if (ok)
            MC_CHECK(shaped(r, s) && read(r) == want, "value", "%s, form %d, gives %s, should be %s",
                     what.c_str(), form, ref::show(r).c_str(), list(want).c_str());
        if (ok && form == 1) for (int i=0; i<x.n; i++) x.set(i, want[i]);
        unchanged(x, "outside", what);
        if (!u.empty()) unchanged(y, "source", what);
        mc::state(what + char('0' + form) + char('0' + how));
    }

    // Parts of one array
    void setOverlap(int n)
    {
        int t = mc::pick(allTypes);
        static const Shape ss[] = { {1}, {2}, {3}, {4}, {2,2}, {1,3}, {2,3}, {3,2}, {2,1,2} };
        const Shape& s = mc::pick(ss);
        int d = mc::range(1, s.size());
        Shape u(s.end() - d, s.end());
        if (prod(s) > n) return;
        int os = mc::range(0, n - prod(s)), ou = mc::range(0, n - prod(u));
        Arr x = make(t, { n }, 0, [&](int i) { return value(t, i); });
        var v = x.base.view(vshape(s), os), w = x.base.view(vshape(u), ou);
        MC_NOTE("set %s: %s at %d to %s at %d", tname(t), str(s).c_str(), os, str(u).c_str(), ou);
        bool assign = s == u && mc::flip();
        if (assign) v = w; else libube::set(v, w, v);
        mc::step();
        std::vector<cd> want = x.was;
        for (int i=0; i<prod(s); i++) want[os + i] = x.was[ou + i % prod(u)];
        x.was = want;
        unchanged(x, "overlap", "set " + str(s) + " at " + std::to_string(os) + " to " + str(u) + " at " + std::to_string(ou));
        mc::state(str(s) + str(u) + std::to_string(os * 20 + ou) + tname(t));
    }

    void swaps()
    {
        static const std::vector<Shape> all = shapes(1, 3, 1, 3);
        int t = mc::pick(types), hx = mc::choose(2), hy = mc::choose(2);
        int mix = mc::choose(2);
        const Shape& s = mc::pick(all);
        const Shape& u = mc::pick(all);
        int ut = mix ? (t == TYPE_FLOAT ? TYPE_DOUBLE : TYPE_FLOAT) : t;
        if (lone(t, s, hx) || lone(ut, u, hy)) return;
        if (mix && s != u) return;
        Arr x = make(t, s, hx * 2, [&](int i) { return value(t, i); });
        Arr y = make(ut, u, hy, [&](int i) { return value(t, 40 + i); });
        std::string what = "swap " + ref::show(x.v) + " and " + ref::show(y.v);
        MC_NOTE("%s", what.c_str());
        bool ok = s == u && !mix;
        bool threw = ref::throws([&] { libube::swap(x.v, y.v); });
        mc::step();
        MC_CHECK(threw == !ok, "conform", "%s %s", what.c_str(), threw ? "throws" : "does not throw");
        if (ok) for (int i=0; i<x.n; i++) { cd c = x.get(i); x.set(i, y.get(i)); y.set(i, c); }
        unchanged(x, "swap", what);
        unchanged(y, "swap", what);
        MC_CHECK(shaped(x.v, s) && shaped(y.v, u), "shape", "%s changed a shape", what.c_str());
        mc::state(what);
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::add("transpose", [=]{ transposes(th ? 9 : 6, th ? 4 : 3); });
    mc::add("concatenate", concatenates);
    mc::add("set", sets);
    mc::add("set-overlap", [=]{ setOverlap(th ? 10 : 7); }, mc::LEAK);
    mc::add("swap", swaps);
    mc::add("sizes", []{ big::moves(mc::thorough() ? 128 : 65); });
    mc::bound("matrix_size", th ? 9 : 6);
    return mc::run(argc, argv, "C10", "model_checking");
}
