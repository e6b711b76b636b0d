// bigops.h -- operations of each kind on values of the sizes of big.h, one
// scenario each, for the harnesses of the properties that they are of.
#pragma once
#include "big.h"
#include <algorithm>
#include <functional>
#include <map>
#include <lube/math.h>

namespace big
{
    using namespace libube;
    using ref::cd;
    typedef std::vector<cd> Vec;
    inline std::vector<int> numeric() { return { TYPE_CHAR, TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE }; }
    inline std::vector<int> floats() { return { TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE }; }
    inline var shape(const std::vector<int>& s) { return var((int)s.size(), s.data()); }
    inline std::string str(const std::vector<int>& s) { std::string r; for (int i : s) r += (r.empty() ? "" : "x") + std::to_string(i); return r; }
    inline double eps(int t) { return t == TYPE_FLOAT || t == TYPE_CFLOAT ? 1.2e-7 : 2.3e-16; }
    // Elements of v, whether an array, a view or a single value
    inline Vec read(const var& v)
    {
        Vec r;
        if ((long)v.type() != TYPE_ARRAY) { r.push_back(ref::num(v)); return r; }
        int n = v.size();
        for (int i=0; i<n; i++) r.push_back(ref::num(v.at(i)));
        return r;
    }
    inline int far(int t, const Vec& a, const Vec& b, double k = 8)
    {
        if (a.size() != b.size()) return std::min(a.size(), b.size());
        for (size_t i=0; i<b.size(); i++)
            if (!(a[i] == b[i] || std::abs(a[i] - b[i]) <= k * eps(t) * std::max(1e-300, std::abs(b[i])))) return i;
        return -1;
    }
    inline void same(const char* sig, const std::string& what, int t, const var& v, const Vec& want, double k = 0)
    {
        Vec g = read(v);
        int d = far(t, g, want, k);
        if (d >= 0)
            mc::violate(sig, "%s: element %d of %zu is %s, should be %s of %zu", what.c_str(), d, g.size(),
                        d < (int)g.size() ? ref::fmt(g[d]).c_str() : "absent", d < (int)want.size() ? ref::fmt(want[d]).c_str() : "absent", want.size());
    }

    // C02: maps of many keys, put in in several orders
    inline void maps()
    {
        static const std::vector<int> ns = ref::bigSizes(1025, 24);
        int n = mc::pick(ns), kind = mc::choose(4), order = mc::choose(5);
        if (n > 600 && kind > 1) mc::prune();
        auto key = [kind](int i) -> var {
            switch (kind)
            {
            case 0: { char b[16]; snprintf(b, sizeof b, "k%05d", i); return b; }
            case 1: return i * 3 - 500;
            case 2: return i * 0.25 - 10;
            }
            char b[16]; snprintf(b, sizeof b, "%d", i); return std::string(b).c_str();
        };
        // As strings, 10 is before 9
        std::vector<int> rank(n);
        for (int i=0; i<n; i++) rank[i] = i;
        if (kind == 3) std::sort(rank.begin(), rank.end(), [](int a, int b) { return std::to_string(a) < std::to_string(b); });
        std::string what = "map of " + std::to_string(n) + " keys, kind " + std::to_string(kind) + ", order " + std::to_string(order);
        MC_NOTE("%s", what.c_str());
        int stride = n;
        for (int k : { 7, 11, 13, 5 }) if (n % k) { stride = k; break; }
        var v;
        v[nil];
        for (int i=0; i<n; i++)
        {
            int j = order == 0 ? i : order == 1 ? n-1-i : order == 2 ? (int)((long)i * stride % n) : order == 3 ? (i & 1 ? n-1-i/2 : i/2) : (i + n/2) % n;
            v[key(j)] = j;
        }
        mc::step(n);
        auto check = [&](var& v, const std::vector<int>& rank, const char* when) {
            MC_CHECK(v.size() == (int)rank.size() && (long)v.atype() == TYPE_PAIR, "many", "%s, %s: has %d", what.c_str(), when, (int)v.size());
            for (size_t i=0; i<rank.size(); i++)
                MC_CHECK(v.key(i) == key(rank[i]) && v.at((int)i) == rank[i], "many", "%s, %s: entry %zu is of %s", what.c_str(), when, i, ref::show(v.key(i)).c_str());
        };
        check(v, rank, "built");
        const var& c = v;
        for (size_t i=0; i<rank.size(); i++)
        {
            MC_CHECK((long)c.index(key(rank[i])) == (long)i, "many lookup", "%s: index of %s is %ld", what.c_str(), ref::show(key(rank[i])).c_str(), (long)c.index(key(rank[i])));
            MC_CHECK(c.at(key(rank[i])) == rank[i], "many lookup", "%s: value of %s is %s", what.c_str(), ref::show(key(rank[i])).c_str(), ref::show(c.at(key(rank[i]))).c_str());
        }
        for (int i : { -1, n, n + 100 })
            MC_CHECK(!c.index(key(i)) && !c.at(key(i)).defined() && c.size() == n, "many lookup", "%s: has %s", what.c_str(), ref::show(key(i)).c_str());
        // Set every third again; remove some
        for (int i=0; i<n; i+=3) v[key(i)] = i;
        check(v, rank, "set again");
        var w = v.copy();
        for (int i : { n - 1, n / 2, 0 })
            if (i >= 0 && i < (int)rank.size()) { v.remove(i); rank.erase(rank.begin() + i); }
        check(v, rank, "removed");
        v[key(n + 3)] = n + 3;
        rank.push_back(n + 3);
        if (kind == 3) std::sort(rank.begin(), rank.end(), [](int a, int b) { return std::to_string(a) < std::to_string(b); });
        check(v, rank, "put in");
        MC_CHECK(w.size() == n, "many", "%s: the copy has %d", what.c_str(), (int)w.size());
        mc::state(what);
    }

    // C03: sharing and copying of long arrays
    inline void copies()
    {
        static const std::vector<int> ns = ref::bigSizes(4097);
        auto ts = numeric();
        ts.push_back(TYPE_VAR);
        ts.push_back(TYPE_PAIR);
        int t = mc::pick(ts), n = mc::pick(ns), at = mc::choose(3);
        if (!n || (t == TYPE_PAIR && n > 520)) mc::prune();
        at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
        std::string what = std::string(ref::tname(t)) + " array of " + std::to_string(n) + ", element " + std::to_string(at);
        MC_NOTE("%s", what.c_str());
        var a;
        if (t == TYPE_VAR) { a.resize(n); for (int i=0; i<n; i++) a.at(i) = ref::patn(i); }
        else if (t == TYPE_PAIR) { a[nil]; for (int i=0; i<n; i++) a[var(i * 2)] = ref::patn(i); }
        else a = ref::bigarr(t, n);
        bool kv = t >= TYPE_VAR;
        auto want = [&](int i) { return kv ? cd(ref::patn(i)) : ref::pat(t, i); };
        auto val = [&](int k) { return kv ? var(k) : ref::scalar(t, k); };
        auto is = [&](const var& v, int x, const char* which) {
            MC_CHECK(v.size() == n && (long)v.atype() == t, "long", "%s: %s has %d", what.c_str(), which, (int)v.size());
            for (int i=0; i<n; i++)
            {
                cd w = i == at && x >= 0 ? cd(x) : want(i);
                MC_CHECK(ref::num(v.at(i)) == w, "long", "%s: element %d of %s is %s", what.c_str(), i, which, ref::show(v.at(i)).c_str());
                if (t == TYPE_PAIR) MC_CHECK(v.key(i) == i * 2, "long", "%s: key %d of %s is %s", what.c_str(), i, which, ref::show(v.key(i)).c_str());
            }
        };
        mc::step(n);
        var b = a, c = a.copy(), d = var(c).copy(), e = { "in", a };
        is(b, -1, "another"); is(c, -1, "the copy"); is(d, -1, "the second copy");
        MC_CHECK(a.is(b) && !a.is(c) && !c.is(d), "long", "%s: is not what it should be", what.c_str());
        b.at(at) = val(65);
        is(a, 65, "the first"); is(c, -1, "the copy"); is(e[1], 65, "the element");
        c.at(at) = val(66);
        is(a, 65, "the first"); is(c, 66, "the copy"); is(d, -1, "the second copy");
        // Longer: those that share it are too
        if (t != TYPE_PAIR)
        {
            b.push(val(67));
            MC_CHECK(a.size() == n + 1 && c.size() == n && ref::num(a.at(n)) == cd(67), "long", "%s: those that share it are not longer", what.c_str());
            var x = b.pop();
            MC_CHECK(ref::num(x) == cd(67), "long", "%s: pop() gives %s", what.c_str(), ref::show(x).c_str());
        }
        is(a, 65, "the first");
        a = nil;
        is(b, 65, "another");
        b = c;
        is(b, 66, "another"); is(e[1], 65, "the element");
        mc::state(what);
    }

    // C04: arrays that differ in one place, or in length
    inline void compare()
    {
        static const std::vector<int> ns = ref::bigSizes(4097);
        auto ts = numeric();
        ts.push_back(TYPE_VAR);
        int t = mc::pick(ts), n = mc::pick(ns), at = mc::choose(4), by = mc::range(-1, 1), len = mc::range(-1, 1);
        if (n < 2) mc::prune();
        at = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : n - 2;
        std::string what = std::string(ref::tname(t)) + " arrays of " + std::to_string(n) + " and " + std::to_string(n + len) + ", " + std::to_string(by) + " at " + std::to_string(at);
        MC_NOTE("%s", what.c_str());
        // All positive, such that complex numbers are in order as well
        auto build = [&](int n, int by) {
            Vec v(n);
            for (int i=0; i<n; i++) v[i] = ref::patn(i) + (i == at ? by : 0);
            if (t != TYPE_VAR) return ref::array(t, v);
            var r;
            r.resize(n);
            for (int i=0; i<n; i++) r.at(i) = (int)v[i].real();
            return r;
        };
        var a = build(n, by), b = build(n + len, 0);
        if (at >= n + len) by = 0;
        // As with strings
        int r = by ? by : -len;
        mc::step(n);
        bool ok = (a < b) == (r < 0) && (a > b) == (r > 0) && (a == b) == !r && (a != b) == (r != 0) && (a <= b) == (r <= 0) && (a >= b) == (r >= 0);
        bool ko = (b < a) == (r > 0) && (b > a) == (r < 0) && (b == a) == !r && (b != a) == (r != 0) && (b <= a) == (r >= 0) && (b >= a) == (r <= 0);
        MC_CHECK(ok && ko, "long", "%s: <%d >%d ==%d; other way <%d >%d ==%d", what.c_str(), a < b, a > b, a == b, b < a, b > a, b == a);
        mc::state(what);
    }

    // C06: arithmetic of long arrays and rows
    inline void arithmetic()
    {
        static const std::vector<int> ns = ref::bigSizes(4097);
        auto ts = floats();
        int t = mc::pick(ts), n = mc::pick(ns), op = mc::choose(4), with = mc::choose(3), form = mc::choose(4);
        if (!n) mc::prune();
        if (op == 3 && with != 2) mc::prune();       // only by single values
        int rows = with == 1 ? 3 : 1;
        if (n * rows == 1) mc::prune();
        std::string what = std::string(ref::tname(t)) + " of " + std::to_string(rows) + "x" + std::to_string(n) + ", " + "+-*/"[op] + ", with " + std::to_string(with) + ", form " + std::to_string(form);
        MC_NOTE("%s", what.c_str());
        Vec x = ref::pats(t, n * rows, 1), y = ref::pats(t, with == 2 ? 1 : n, 2), w(x.size());
        for (size_t i=0; i<x.size(); i++)
        {
            cd a = x[i], b = y[i % y.size()];
            w[i] = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? cd(a.real()*b.real() - a.imag()*b.imag(), a.real()*b.imag() + a.imag()*b.real()) : a / b;
        }
        var a = ref::array(t, x), b = with == 2 ? ref::scalar(t, y[0]) : ref::array(t, y);
        var va = rows > 1 ? a.view({ rows, n }) : a, r;
        mc::step(n);
        switch (form)
        {
        case 0: r = op == 0 ? va + b : op == 1 ? va - b : op == 2 ? va * b : va / b; break;
        case 1: r = va.copy(); if (op == 0) r += b; else if (op == 1) r -= b; else if (op == 2) r *= b; else r /= b; break;
        case 2:
        case 3:
        {
            // Into a part of something longer
            var o = ref::array(t, Vec(x.size() + 5, 77));
            r = o.view(rows > 1 ? var({ rows, n }) : shape({ n }), 3);
            if (form == 3) for (size_t i=0; i<x.size(); i++) r.at(i) = ref::scalar(t, x[i]);
            const var& in = form == 3 ? r : va;
            if (op == 0) add(in, b, r); else if (op == 1) sub(in, b, r); else if (op == 2) mul(in, b, r); else libube::div(in, b, r);
            for (int i : { 0, 1, 2, (int)x.size() + 3, (int)x.size() + 4 })
                MC_CHECK(ref::num(o.at(i)) == cd(77), "long outside", "%s: writes outside, at %d", what.c_str(), i);
            break;
        }
        }
        MC_CHECK((long)r.atype() == t && (rows == 1 || (r.dim() == 2 && r.shape(0) == rows && r.shape(1) == n)), "long shape", "%s: is %s", what.c_str(), ref::tname((long)r.atype()));
        same("long value", what, t, r, w, 8);
        same("long operand", what, t, a, x);
        same("long operand", what, t, b, y);
        mc::state(what);
    }

    // C07: functions of long arrays
    inline void functions()
    {
        static const std::vector<int> ns = ref::bigSizes(4097);
        auto ts = floats();
        static const char* name[] = { "sin", "cos", "tan", "atan", "floor", "sqrt", "log", "exp", "real", "imag", "abs", "arg", "norm", "pow" };
        int t = mc::pick(ts), n = mc::pick(ns), f = mc::choose(14), form = mc::choose(3);
        bool cx = t >= TYPE_CFLOAT;
        if (n < 2 || (cx && f < 8) || (!cx && f > 7 && f != 10 && f != 13)) mc::prune();
        std::string what = std::string(name[f]) + " of " + std::to_string(n) + " of " + ref::tname(t) + ", form " + std::to_string(form);
        MC_NOTE("%s", what.c_str());
        Vec x(n), w(n), p(n);
        int ot = cx && f != 13 ? (t == TYPE_CFLOAT ? (int)TYPE_FLOAT : (int)TYPE_DOUBLE) : t;
        for (int i=0; i<n; i++)
        {
            int k = ref::patn(i);
            x[i] = ref::as(t, cx ? cd(k * 0.125 - 8, i % 5 - 1.5) : cd(f == 5 || f == 6 || f == 13 ? k * 0.0625 : k * 0.125 - 8));
            p[i] = n % 3 + 1;                       // only to single powers
            double r = x[i].real();
            switch (f)
            {
            case 0: w[i] = std::sin(r); break; case 1: w[i] = std::cos(r); break; case 2: w[i] = std::tan(r); break;
            case 3: w[i] = std::atan(r); break; case 4: w[i] = std::floor(r); break; case 5: w[i] = std::sqrt(r); break;
            case 6: w[i] = std::log(r); break; case 7: w[i] = std::exp(r); break;
            case 8: w[i] = r; break; case 9: w[i] = x[i].imag(); break; case 10: w[i] = std::abs(x[i]); break;
            case 11: w[i] = std::arg(x[i]); break; case 12: w[i] = std::norm(x[i]); break;
            case 13: w[i] = cx ? std::pow(x[i], p[i]) : cd(std::pow(r, p[i].real())); break;
            }
        }
        var a = ref::array(t, x), b = ref::scalar(t, p[0]), r;
        static const UnaryFunctor* fs[] = { &libube::sin, &libube::cos, &libube::tan, &libube::atan, &libube::floor, &libube::sqrt, &libube::log, &libube::exp, &libube::real, &libube::imag, &libube::abs, &libube::arg, &libube::norm };
        mc::step(n);
        if (form == 2)
        {
            // Of a part, into a part
            var o = ref::array(ot, Vec(n + 4, 77));
            r = o.view(shape({ n }), 2);
            if (f == 13) libube::pow(a, b, r); else (*fs[f])(a, r);
            for (int i : { 0, 1, n + 2, n + 3 }) MC_CHECK(ref::num(o.at(i)) == cd(77), "long outside", "%s: writes outside, at %d", what.c_str(), i);
        }
        else if (form == 1)
        {
            if (ot != t) mc::prune();
            r = a.copy();
            if (f == 13) libube::pow(r, b, r); else (*fs[f])(r, r);
        }
        else r = f == 13 ? libube::pow(a, b) : (*fs[f])(a);
        MC_CHECK((long)r.atype() == ot, "long type", "%s: is %s", what.c_str(), ref::tname((long)r.atype()));
        if (f == 3 || f == 0 || f == 1 || f == 11)
        {
            // Absolute, near zeros
            Vec g = read(r);
            MC_CHECK(g.size() == w.size(), "long value", "%s: has %zu", what.c_str(), g.size());
            for (int i=0; i<n; i++) MC_CHECK(std::abs(g[i] - w[i]) < 8 * eps(t), "long value", "%s: element %d is %s, should be %s", what.c_str(), i, ref::fmt(g[i]).c_str(), ref::fmt(w[i]).c_str());
        }
        else same("long value", what, t, r, w, 40);
        same("long operand", what, t, a, x);
        mc::state(what);
    }

    // C08: sums of long arrays and products of large matrices
    inline void reductions()
    {
        static const std::vector<int> ns = ref::bigSizes(4097, 40);
        auto ts = floats();
        int t = mc::pick(ts), n = mc::pick(ns), f = mc::choose(4), rows = mc::choose(2) * 2 + 1;
        if (n < 2) mc::prune();
        static const char* name[] = { "sum", "asum", "iamax", "dot" };
        std::string what = std::string(name[f]) + " of " + std::to_string(rows) + "x" + std::to_string(n) + " of " + ref::tname(t);
        if (f == 1 && t >= TYPE_CFLOAT) mc::prune();
        MC_NOTE("%s", what.c_str());
        Vec x = ref::pats(t, n * rows, 1), y = ref::pats(t, n, 2), w;
        for (int r=0; r<rows; r++)
        {
            cd s = 0;
            double m = -1;
            for (int i=0; i<n; i++)
            {
                cd a = x[r*n + i], b = std::conj(a);
                if (f == 0) s += a;
                if (f == 1) s += std::abs(a.real());
                if (f == 2) { double k = std::abs(a.real()) + std::abs(a.imag()); if (k > m) { m = k; s = i; } }
                if (f == 3) s += cd(b.real()*y[i].real() - b.imag()*y[i].imag(), b.real()*y[i].imag() + b.imag()*y[i].real());
            }
            w.push_back(s);
        }
        var a = ref::array(t, x), b = ref::array(t, y), v = rows > 1 ? a.view({ rows, n }) : a, r;
        mc::step(n);
        r = f == 0 ? sum(v) : f == 1 ? asum(v) : f == 2 ? iamax(v) : dot(v, b);
        // Integers, so exact in any order
        same("long value", what, t, r, w);
        same("long operand", what, t, a, x);
        mc::state(what);
    }
    inline void products(int max)
    {
        static const std::vector<int> ks = [max] { std::vector<int> r; for (int i : { 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65 }) if (i <= max) r.push_back(i); return r; }();
        int t = mc::choose(2) ? (int)TYPE_FLOAT : (int)TYPE_DOUBLE;
        int l = mc::pick(ks), m = mc::pick(ks), n = mc::pick(ks);
        std::string what = std::string(ref::tname(t)) + " " + str({ l, m }) + " . " + str({ m, n });
        MC_NOTE("%s", what.c_str());
        Vec x = ref::pats(t, l * m, 1), y = ref::pats(t, m * n, 2), w(l * n);
        for (int i=0; i<l; i++) for (int j=0; j<n; j++) { double s = 0; for (int k=0; k<m; k++) s += x[i*m + k].real() * y[k*n + j].real(); w[i*n + j] = s; }
        var a = ref::array(t, x), b = ref::array(t, y), r;
        mc::step();
        r = dot(a.view({ l, m }), b.view({ m, n }));
        MC_CHECK(r.dim() == 2 && r.shape(0) == l && r.shape(1) == n, "large shape", "%s is %s", what.c_str(), ref::show(r.shape()).c_str());
        same("large value", what, t, r, w);
        mc::state(what);
    }

    // C09: views of long arrays
    inline void views()
    {
        static const std::vector<int> ns = { 1, 2, 3, 7, 8, 16, 17, 31, 64, 65 };
        auto ts = numeric();
        int t = mc::pick(ts), l = mc::pick(ns), m = mc::pick(ns), off = mc::choose(3), fresh = mc::choose(2);
        off = off == 2 ? 100 : off;
        int n = l * m;
        std::string what = std::string(ref::tname(t)) + " view of " + str({ l, m }) + " at " + std::to_string(off) + (fresh ? ", allocated" : "");
        MC_NOTE("%s", what.c_str());
        if (fresh && off) mc::prune();
        Vec x = ref::pats(t, n + off + 3);
        var a = ref::array(t, x), v;
        if (fresh) { v = view({ l, m }, ref::scalar(t, 0)); for (int i=0; i<n; i++) v.at(i) = ref::scalar(t, x[i]); }
        else v = a.view({ l, m }, off);
        mc::step(n);
        MC_CHECK(v.size() == n && v.dim() == 2 && v.shape(0) == l && v.shape(1) == m && (long)v.atype() == t, "large shape", "%s has shape %s", what.c_str(), ref::show(v.shape()).c_str());
        for (int i=0; i<l; i++)
        {
            var row = l > 1 || true ? v.subview(1, i * m) : v;
            MC_CHECK(row.size() == m && row.dim() == 1, "large row", "%s: row %d has %d", what.c_str(), i, (int)row.size());
            for (int j=0; j<m; j++)
            {
                MC_CHECK(ref::num(v(i, j)) == x[off + i*m + j], "large element", "%s: (%d, %d) is %s", what.c_str(), i, j, ref::show(v(i, j)).c_str());
                if (j % 5 == 0) MC_CHECK(ref::num(row.at(j)) == x[off + i*m + j], "large row", "%s: element %d of row %d is %s", what.c_str(), j, i, ref::show(row.at(j)).c_str());
            }
        }
        for (int i : { -1, l }) MC_CHECK(ref::throws([&] { var r = v(i, 0); }), "large bounds", "%s: (%d, 0) does not throw", what.c_str(), i);
        for (int j : { -1, m }) MC_CHECK(ref::throws([&] { var r = v(0, j); }), "large bounds", "%s: (0, %d) does not throw", what.c_str(), j);
        // Writing is where it says
        int i = l / 2, j = m - 1;
        v(i, j) = ref::scalar(t, 99);
        if (!fresh) { x[off + i*m + j] = 99; same("large write", what, t, a, x); }
        mc::state(what);
    }

    // C10: data movement
    inline void moves(int max)
    {
        static const std::vector<int> ks = [max] { std::vector<int> r; for (int i : { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128 }) if (i <= max) r.push_back(i); return r; }();
        auto ts = floats();
        int t = mc::pick(ts), l = mc::pick(ks), m = mc::pick(ks), f = mc::choose(5);
        if (t >= TYPE_CFLOAT && f < 2) mc::prune();
        if (l * m == 1) mc::prune();
        static const char* name[] = { "transpose", "transpose in place", "concatenate", "set", "swap" };
        std::string what = std::string(name[f]) + " of " + ref::tname(t) + " " + str({ l, m });
        MC_NOTE("%s", what.c_str());
        int n = l * m;
        Vec x = ref::pats(t, n, 1), y = ref::pats(t, 2 * n, 2), w;
        var a = ref::array(t, x), b = ref::array(t, y), v = a.view({ l, m }), r;
        std::vector<int> s = { l, m };
        mc::step(n);
        switch (f)
        {
        case 0:
        case 1:
            for (int j=0; j<m; j++) for (int i=0; i<l; i++) w.push_back(x[i*m + j]);
            if (f) { transpose(v, v); r = v; } else r = transpose(v);
            s = { m, l };
            break;
        case 2:
        {
            var q;
            q.resize(3);
            q[0] = v; q[1] = b.view({ l, 2 * m }); q[2] = v;
            r = concatenate(q);
            s = { l, 4 * m };
            for (int i=0; i<l; i++)
            {
                w.insert(w.end(), x.begin() + i*m, x.begin() + (i+1)*m);
                w.insert(w.end(), y.begin() + i*2*m, y.begin() + (i+1)*2*m);
                w.insert(w.end(), x.begin() + i*m, x.begin() + (i+1)*m);
            }
            break;
        }
        case 3:
            if (m == 1) mc::prune();
            r = libube::set(v, ref::array(t, Vec(y.begin(), y.begin() + m)));
            for (int i=0; i<n; i++) w.push_back(y[i % m]);
            break;
        case 4:
        {
            var u = b.view({ l, m }, n / 2);
            libube::swap(v, u);
            r = v;
            w.assign(y.begin() + n/2, y.begin() + n/2 + n);
            for (int i=0; i<n; i++) y[n/2 + i] = x[i];
            same("large other", what, t, b, y);
            break;
        }
        }
        MC_CHECK(r.dim() == 2 && r.shape(0) == s[0] && r.shape(1) == s[1] && (long)r.atype() == t, "large shape", "%s is %s", what.c_str(), ref::show(r.shape()).c_str());
        same("large value", what, t, r, w);
        if (f == 0 || f == 2) same("large operand", what, t, a, x);
        mc::state(what);
    }
}
