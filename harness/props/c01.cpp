// C01: an array behaves as a sequence under every history of operations.
//
// The real var is driven by every sequence of operations up to a depth, from
// every initial state; a std::vector is the oracle for every step.
#include "big.h"
#include <algorithm>
using namespace ref;
using libube::TYPE_VAR;
using libube::TYPE_CHAR;
using libube::TYPE_INT;
using libube::TYPE_LONG;
using libube::TYPE_FLOAT;
using libube::TYPE_DOUBLE;
using libube::TYPE_CFLOAT;
using libube::TYPE_CDOUBLE;

namespace
{
    struct Elem { std::string show; cd n; std::string s; };
    struct Model
    {
        enum { NIL, SCALAR, ARRAY } kind = NIL;
        int type = -1;               // element type
        bool loose = false;          // element type unspecified (grown from nil)
        std::vector<Elem> v;
    };
    const int types[] = { TYPE_INT, TYPE_DOUBLE, TYPE_VAR, TYPE_CHAR,
                          TYPE_LONG, TYPE_FLOAT, TYPE_CFLOAT, TYPE_CDOUBLE };

    // The two values of each type, plus one of another type
    cd val(int t, int k)
    {
        if (t == TYPE_CHAR) return cd('b' - k);
        if (t == TYPE_INT || t == TYPE_LONG) return cd(k ? -3 : 7);
        if (t == TYPE_FLOAT || t == TYPE_DOUBLE) return cd(k ? -0.5 : 2.25);
        return k ? cd(-0.5, 1) : cd(2.25, -3);
    }
    const char* strs[] = { "b", "" };
    var mkval(int t, int k)
    {
        if (t == TYPE_VAR) return var(strs[k]);
        return scalar(t, val(t, k));
    }
    Elem mkelem0(int t, int k)
    {
        Elem e;
        if (t == TYPE_VAR) { e.s = strs[k]; e.show = mc::quote(strs[k]); }
        else { e.n = as(t, val(t, k)); e.show = show(scalar(t, e.n)); }
        if (t == TYPE_CDOUBLE) e.show = "cdouble " + fmt(e.n);
        return e;
    }
    const Elem& mkelem(int t, int k)
    {
        static Elem cache[10][2];
        static bool done[10][2];
        if (!done[t][k]) { cache[t][k] = mkelem0(t, k); done[t][k] = true; }
        return cache[t][k];
    }
    Elem mkcast(int t, cd n)
    {
        Elem e; e.n = as(t, n);
        e.show = std::string(tname(t)) + " " + fmt(e.n, t >= TYPE_CFLOAT);
        return e;
    }
    std::string single(const var& v)   // show an element or value
    {
        if (!v.defined()) return "nil";
        if ((long)v.type() == libube::TYPE_ARRAY && v.atype<cd>() && v.size() == 1)
            return "cdouble " + fmt(num(v));
        return show(v);
    }
    bool less(int t, const Elem& a, const Elem& b)
    {
        if (t == TYPE_VAR) return a.s < b.s;
        if (t >= TYPE_CFLOAT && std::abs(a.n) != std::abs(b.n))
            return std::abs(a.n) < std::abs(b.n);
        if (a.n.real() != b.n.real()) return a.n.real() < b.n.real();
        return a.n.imag() < b.n.imag();
    }

    void verify(var& a, const Model& m, const char* when)
    {
        mc::step();
        // The same operations led here in the previous execution
        if (!mc::fresh()) return;
        MC_CHECK(a.defined() == (m.kind != Model::NIL), "defined",
                 "after %s: defined() is %d", when, a.defined());
        MC_CHECK(a.size() == (int)m.v.size(), "size",
                 "after %s: size() is %d, should be %zu", when, a.size(), m.v.size());
        for (size_t i=0; i<m.v.size(); i++)
        {
            std::string s = single(a.at(i));
            MC_CHECK(s == m.v[i].show, "element",
                     "after %s: element %zu is %s, should be %s", when, i,
                     s.c_str(), m.v[i].show.c_str());
        }
        if (m.kind == Model::ARRAY && !m.loose)
        {
            MC_CHECK((long)a.type() == libube::TYPE_ARRAY &&
                     (long)a.atype() == m.type, "type",
                     "after %s: is an array of %s, should be %s", when,
                     tname((long)a.atype()), tname(m.type));
        }
        if (m.kind == Model::SCALAR)
            MC_CHECK((long)a.type() == m.type, "type", "after %s: is %s, should be a single %s", when,
                     show(a).c_str(), tname(m.type));
        if (m.v.size())
        {
            var t = a.top();
            MC_CHECK(single(t) == m.v.back().show, "top",
                     "after %s: top() is %s", when, single(t).c_str());
        }
        std::string h;
        h += "0123"[m.kind]; h += "0123456789"[m.type+1];
        for (auto& e : m.v) { h += e.show; h += '|'; }
        mc::state(h);
    }

    // One operation.
    void op(var& a, Model& m, int T)
    {
        enum { PUSH, POP, UNSHIFT, SHIFT, INSERT, INSERT2, REMOVE, SET, GROW,
               RESIZE, PRESIZE, CLEAR, ARRAYOP, SORT, INDEX, COPY, APPEND,
               PUSHCAST, PUSHSELF, INSERTSELF, BAD, SETAT, PUSHBAD, NOP };
        int n = m.v.size();
        bool nil = m.kind == Model::NIL, arr = m.kind == Model::ARRAY;
        bool numeric = arr && m.type != TYPE_VAR && m.type != TYPE_CHAR;
        int menu[NOP], nm = 0;
        for (int i=0; i<NOP; i++)
        {
            bool ok = true;
            switch (i)
            {
            case UNSHIFT: ok = !nil || !(T == TYPE_VAR || T == TYPE_CDOUBLE); break;
            case INSERT: case GROW: case ARRAYOP: case COPY: ok = !nil; break;
            case INSERT2: ok = !nil && m.type != TYPE_VAR; break;
            case INSERTSELF: ok = arr && m.type != TYPE_VAR && n <= 5; break;
            case APPEND: ok = !nil; break;
            case RESIZE: case PRESIZE: ok = !nil || T == TYPE_VAR; break;
            case BAD: ok = arr; break;
            case SET: ok = n > 0; break;
            case PUSHSELF: case SETAT: ok = arr && n > 0; break;
            case PUSHCAST: ok = numeric; break;
            case PUSHBAD: ok = numeric || (m.kind == Model::SCALAR && m.type != TYPE_CHAR); break;
            case SORT: ok = arr; break;
            }
            if (ok) menu[nm++] = i;
        }
        int o = menu[mc::choose(nm)];
        char w[96]; snprintf(w, sizeof w, "?");
        switch (o)
        {
        case PUSH:
        {
            int k = mc::choose(2);
            snprintf(w, sizeof w, "push(%s)", mkelem(T,k).show.c_str());
            MC_NOTE("%s", w);
            a.push(mkval(T, k));
            m.v.push_back(mkelem(T, k));
            if (m.kind == Model::NIL)
            {
                bool arr = T == TYPE_VAR || T == TYPE_CDOUBLE;
                m.kind = arr ? Model::ARRAY : Model::SCALAR;
                m.type = arr ? TYPE_VAR : T;
            }
            else m.kind = Model::ARRAY;
            break;
        }
        case POP:
        case SHIFT:
        {
            snprintf(w, sizeof w, o == POP ? "pop()" : "shift()");
            MC_NOTE("%s", w);
            if (n == 0)
            {
                MC_CHECK(throws([&]{ var r = o == POP ? a.pop() : a.shift(); }),
                         "empty", "%s of an empty array did not throw", w);
                break;
            }
            var r = o == POP ? a.pop() : a.shift();
            Elem e = o == POP ? m.v.back() : m.v.front();
            MC_CHECK(single(r) == e.show, "result", "%s returned %s, should be %s",
                     w, single(r).c_str(), e.show.c_str());
            m.v.erase(o == POP ? m.v.end()-1 : m.v.begin());
            if (m.kind == Model::SCALAR) { m.kind = Model::NIL; m.type = -1; }
            break;
        }
        case UNSHIFT:
        {
            if (m.kind == Model::NIL && (T == TYPE_VAR || T == TYPE_CDOUBLE))
                mc::prune();
            int k = mc::choose(2);
            snprintf(w, sizeof w, "unshift(%s)", mkelem(T,k).show.c_str());
            MC_NOTE("%s", w);
            a.unshift(mkval(T, k));
            m.v.insert(m.v.begin(), mkelem(T, k));
            if (m.kind == Model::NIL) { m.kind = Model::SCALAR; m.type = T; }
            else m.kind = Model::ARRAY;
            break;
        }
        case INSERT:
        {
            // Into nil, a string becomes the value itself; covered by C15
            if (m.kind == Model::NIL) mc::prune();
            int k = mc::choose(2);
            int i = mc::range(-1, n+1);
            snprintf(w, sizeof w, "insert(%s, %d)", mkelem(T,k).show.c_str(), i);
            MC_NOTE("%s", w);
            if (i < 0 || i > n)
            {
                MC_CHECK(throws([&]{ a.insert(mkval(T,k), i); }), "bounds",
                         "%s did not throw", w);
                break;
            }
            a.insert(mkval(T, k), i);
            m.v.insert(m.v.begin()+i, mkelem(T, k));
            m.kind = Model::ARRAY;
            break;
        }
        case INSERT2:
        {
            // Several at once
            int i = mc::range(0, n);
            snprintf(w, sizeof w, "insert({2 values}, %d)", i);
            MC_NOTE("%s", w);
            var x = array(T, {val(T,0), val(T,1)});
            a.insert(x, i);
            m.v.insert(m.v.begin()+i, mkelem(T,1));
            m.v.insert(m.v.begin()+i, mkelem(T,0));
            m.kind = Model::ARRAY;
            MC_CHECK(x.size() == 2 && num(x.at(0)) == as(T,val(T,0)) &&
                     num(x.at(1)) == as(T,val(T,1)), "argument",
                     "%s changed its argument", w);
            break;
        }
        case APPEND:
        {
            snprintf(w, sizeof w, "append(%s)", mkelem(T,1).show.c_str());
            MC_NOTE("%s", w);
            a.append(mkval(T, 1));
            m.v.push_back(mkelem(T, 1));
            m.kind = Model::ARRAY;
            break;
        }
        case REMOVE:
        {
            int i = mc::range(0, n);
            snprintf(w, sizeof w, "remove(%d)", i);
            MC_NOTE("%s", w);
            if (i == n)
            {
                MC_CHECK(throws([&]{ var r = a.remove(i); }), "bounds",
                         "%s did not throw", w);
                break;
            }
            var r = a.remove(i);
            MC_CHECK(single(r) == m.v[i].show, "result",
                     "%s returned %s, should be %s", w, single(r).c_str(),
                     m.v[i].show.c_str());
            m.v.erase(m.v.begin()+i);
            if (m.kind == Model::SCALAR) { m.kind = Model::NIL; m.type = -1; }
            break;
        }
        case SET:
        {
            // By reference, in range; makes an array of a single value
            if (n == 0) mc::prune();
            int i = mc::choose(n);
            int k = mc::choose(2);
            snprintf(w, sizeof w, "[%d] = %s", i, mkelem(T,k).show.c_str());
            MC_NOTE("%s", w);
            a[i] = mkval(T, k);
            m.v[i] = mkelem(T, k);
            m.kind = Model::ARRAY;
            break;
        }
        case GROW:
        {
            // [size()] or just beyond
            if (m.kind == Model::NIL) mc::prune();
            int k = mc::choose(2);
            snprintf(w, sizeof w, "[%d] = %s", n+k, mkelem(T,0).show.c_str());
            MC_NOTE("%s", w);
            a[n+k] = mkval(T, 0);
            if (k)
            {
                // Unspecified for numbers, so say what it is
                if (m.type == TYPE_VAR) m.v.push_back({"nil", cd(0), ""});
                else { a[n] = mkval(T, 1); m.v.push_back(mkelem(T, 1)); }
            }
            m.v.push_back(mkelem(T, 0));
            m.kind = Model::ARRAY;
            break;
        }
        case RESIZE:
        {
            int s = mc::range(0, n+1);
            snprintf(w, sizeof w, "resize(%d)", s);
            MC_NOTE("%s", w);
            a.resize(s);
            if (m.kind == Model::NIL) m.type = TYPE_VAR;
            if (m.kind == Model::NIL || s != 1) m.kind = Model::ARRAY;
            if (s > n)
            {
                if (m.type == TYPE_VAR) m.v.push_back({"nil", cd(0), ""});
                else { a[n] = mkval(T, 1); m.v.push_back(mkelem(T, 1)); }
            }
            else
                m.v.erase(m.v.begin()+s, m.v.end());
            break;
        }
        case PRESIZE:
        {
            int s = mc::choose(3) * 5;
            snprintf(w, sizeof w, "presize(%d)", s);
            MC_NOTE("%s", w);
            a.presize(s);
            if (m.kind == Model::NIL) m.type = TYPE_VAR;
            if (s >= n) m.kind = Model::ARRAY;
            break;
        }
        case CLEAR:
            snprintf(w, sizeof w, "clear()");
            MC_NOTE("%s", w);
            a.clear();
            m = Model();
            break;
        case ARRAYOP:
            if (m.kind == Model::NIL) mc::prune();
            snprintf(w, sizeof w, "array()");
            MC_NOTE("%s", w);
            a.array();
            m.kind = Model::ARRAY;
            break;
        case SORT:
        {
            if (m.kind != Model::ARRAY) mc::prune();
            for (auto& e : m.v) if (e.show == "nil") mc::prune();
            snprintf(w, sizeof w, "sort()");
            MC_NOTE("%s", w);
            var r = a.sort();
            std::vector<Elem> e = m.v;
            std::stable_sort(e.begin(), e.end(), [&](const Elem& x, const Elem& y)
                             { return less(T, x, y); });
            MC_CHECK(r.size() == n, "sort", "sort() of %s has %d elements",
                     show(a).c_str(), r.size());
            for (int i=0; i<n; i++)
                MC_CHECK(single(r.at(i)) == e[i].show, "sort",
                         "sort() of %s is %s", show(a).c_str(), show(r).c_str());
            break;
        }
        case INDEX:
            snprintf(w, sizeof w, "index()");
            MC_NOTE("%s", w);
            for (int k=0; k<2; k++)
            {
                Elem e = mkelem(T, k);
                int x = -1;
                for (int i=n-1; i>=0; i--) if (m.v[i].show == e.show) x = i;
                ind r = a.index(mkval(T, k));
                MC_CHECK((int)(long)r == x || (x < 0 && !r), "index",
                         "index(%s) in %s is %d, should be %d", e.show.c_str(),
                         show(a).c_str(), (int)(long)r, x);
            }
            break;
        case COPY:
        {
            // What happens to a copy of an array does not matter
            if (m.kind == Model::NIL) mc::prune();
            snprintf(w, sizeof w, "copy()");
            MC_NOTE("%s", w);
            var c = a.copy();
            verify(c, m, w);
            if (mc::flip())
            {
                c.array();
                c.unshift(mkval(T, 0));
                c[c.size()-1] = mkval(T, 1);
            }
            else
            {
                // Carry on with the copy
                a.array();
                a.resize(0);
                a = c;
            }
            break;
        }
        case PUSHCAST:
        {
            // A number of another type is cast to that of the array
            if (m.kind != Model::ARRAY || m.loose || m.type == TYPE_VAR ||
                m.type == TYPE_CHAR) mc::prune();
            int t = mc::flip() ? TYPE_INT : TYPE_FLOAT;
            cd n5 = t == TYPE_INT ? cd(5) : cd(1.5);
            int where = mc::choose(4);
            if (where == 3 && n == 0) mc::prune();
            static const char* ww[] = {"push", "unshift", "insert", "[0] ="};
            snprintf(w, sizeof w, "%s(%s %g)", ww[where], tname(t), n5.real());
            MC_NOTE("%s", w);
            var x = scalar(t, n5);
            Elem e = mkcast(T, n5);
            if (where == 0) { a.push(x); m.v.push_back(e); }
            if (where == 1) { a.unshift(x); m.v.insert(m.v.begin(), e); }
            if (where == 2) { a.insert(x, n/2); m.v.insert(m.v.begin()+n/2, e); }
            if (where == 3) { a[0] = x; m.v[0] = e; }
            break;
        }
        case PUSHSELF:
        {
            // An element of the array itself
            if (m.kind != Model::ARRAY || n == 0) mc::prune();
            int i = mc::flip() ? n-1 : 0;
            int where = mc::choose(4);
            static const char* ww[] = {"push", "unshift", "insert", "[0] ="};
            snprintf(w, sizeof w, "%s([%d])", ww[where], i);
            MC_NOTE("%s", w);
            Elem e = m.v[i];
            if (where == 0) { a.push(a[i]); m.v.push_back(e); }
            if (where == 1) { a.unshift(a[i]); m.v.insert(m.v.begin(), e); }
            if (where == 2) { a.insert(a[i], n/2); m.v.insert(m.v.begin()+n/2, e); }
            if (where == 3) { a[0] = a[i]; m.v[0] = e; }
            break;
        }
        case INSERTSELF:
        {
            if (m.kind != Model::ARRAY || m.type == TYPE_VAR || n > 5) mc::prune();
            int i = mc::range(0, n);
            snprintf(w, sizeof w, "insert(itself, %d)", i);
            MC_NOTE("%s", w);
            a.insert(a, i);
            std::vector<Elem> e = m.v;
            m.v.insert(m.v.begin()+i, e.begin(), e.end());
            break;
        }
        case BAD:
        {
            // Nothing changes if it throws
            if (m.kind != Model::ARRAY) mc::prune();
            int k = mc::choose(5);
            snprintf(w, sizeof w, "something bad");
            MC_NOTE("%s %d", w, k);
            bool t = throws([&]{
                if (k == 0) a.resize(-1);
                if (k == 1) { var x = a[-1]; }
                if (k == 2) a.at(n) = mkval(T, 0);
                if (k == 3) var x = a.at(n);
                if (k == 4) var x = a.at(-1);
            });
            MC_CHECK(t, "bounds", "bad index (case %d) did not throw", k);
            break;
        }
        case SETAT:
        {
            if (m.kind != Model::ARRAY || n == 0) mc::prune();
            int i = mc::choose(n);
            snprintf(w, sizeof w, "at(%d) = %s", i, mkelem(T,1).show.c_str());
            MC_NOTE("%s", w);
            a.at(i) = mkval(T, 1);
            m.v[i] = mkelem(T, 1);
            break;
        }
        case PUSHBAD:
        {
            // A string that is not a number can't be put in a numeric array
            // Indexing makes an array of a single value, whatever comes next
            int where = mc::choose(m.kind == Model::ARRAY && n ? 4 : 3);
            snprintf(w, sizeof w, "bad cast");
            MC_NOTE("%s %d", w, where);
            bool t = throws([&]{
                var x = "x";
                if (where == 0) a.push(x);
                if (where == 1) a.unshift(x);
                if (where == 2) a.insert(var({x, x}), n/2);
                if (where == 3) a[0] = x;
            });
            MC_CHECK(t, "cast", "a string was put in an array of %s (case %d)",
                     tname(m.type), where);
            break;
        }
        }
        verify(a, m, w);
    }

    void histories(const int* iTypes, int nTypes, int depth)
    {
        int T = iTypes[mc::choose(nTypes)];
        int init = mc::choose(4);
        var a;
        Model m;
        MC_NOTE("type %s, initial state %d", tname(T), init);
        if (init == 1)
        {
            a = mkval(T, 0);
            // Strings and cdouble are arrays in themselves
            if (T == TYPE_VAR)
                a = var({mkval(T, 0)});
            m.kind = T == TYPE_VAR || T == TYPE_CDOUBLE ? Model::ARRAY : Model::SCALAR;
            m.type = T;
            m.v = { mkelem(T, 0) };
        }
        if (init >= 2)
        {
            int k = init == 2 ? 2 : 3;
            if (T == TYPE_VAR || (T != TYPE_CDOUBLE && k == 2))
            {
                if (k == 2) a = { mkval(T,1), mkval(T,0) };
                else a = { mkval(T,1), mkval(T,0), mkval(T,1) };
            }
            else
            {
                std::vector<cd> x = { val(T,1), val(T,0), val(T,1) };
                x.resize(k);
                a = array(T, x);
            }
            m.kind = Model::ARRAY; m.type = T;
            for (int i=0; i<k; i++) m.v.push_back(mkelem(T, 1 - (i&1)));
        }
        verify(a, m, "construction");
        for (int i=0; i<depth; i++)
            op(a, m, T);
    }
    // Longer ones: built in one of several ways, then one operation
    template<class E> void longer(int T, const std::vector<int>& sizes, std::function<E(int)> item, std::function<var(const E&)> make)
    {
        static const char* builds[] = { "push", "assign beyond the end", "resize and set", "insert in the middle", "unshift", "append" };
        static const char* ops[] = { "nothing", "push", "pop", "shift", "unshift", "insert", "remove", "halve", "double", "copy", "presize", "copy and change", "index", "push all again", "sort", "clear", "insert itself" };
        int n = mc::pick(sizes), b = mc::choose(6), o = mc::choose(17);
        if ((b == 3 || b == 4) && n > 300) mc::prune();
        if (o == 14 && n > 130) mc::prune();
        std::string what = std::string(tname(T)) + " array of " + std::to_string(n) + " by " + builds[b] + ", " + ops[o];
        MC_NOTE("%s", what.c_str());
        std::vector<E> m;
        var a = array(T == TYPE_VAR ? (int)TYPE_INT : T, {});
        if (T == TYPE_VAR) { a = var(); a.resize(0); }
        if (b == 2) a.resize(n);
        for (int i=0; i<n; i++)
        {
            E e = item(i);
            switch (b)
            {
            case 0: a.push(make(e)); m.push_back(e); break;
            case 1: a[i] = make(e); m.push_back(e); break;
            case 2: a.at(i) = make(e); m.push_back(e); break;
            case 3: a.insert(make(e), i / 2); m.insert(m.begin() + i / 2, e); break;
            case 4: a.unshift(make(e)); m.insert(m.begin(), e); break;
            case 5: a.append(make(e)); m.push_back(e); break;
            }
        }
        mc::step(n);
        auto check = [&](var& a, const char* when) {
            MC_CHECK(a.size() == (int)m.size() && (long)a.type() == libube::TYPE_ARRAY && (long)a.atype() == T, "long size",
                     "%s: %s, there are %d of %s, should be %zu", what.c_str(), when, (int)a.size(), tname((long)a.atype()), m.size());
            int d = differs(a, m);
            MC_CHECK(d < 0, "long element", "%s: %s, element %d is %s", what.c_str(), when, d, single(a.at(d)).c_str());
        };
        check(a, "built");
        auto result = [&](var r, const E& e) {
            var v; v.resize(1); v.at(0) = r;
            MC_CHECK(differs(v, std::vector<E>{ e }) < 0, "long result", "%s: the result is %s", what.c_str(), single(r).c_str());
        };
        E x = item(n + 5);
        int h = n / 2;
        switch (o)
        {
        case 1: a.push(make(x)); m.push_back(x); break;
        case 2: if (n) { E e = m.back(); m.pop_back(); result(a.pop(), e); } break;
        case 3: if (n) { E e = m.front(); m.erase(m.begin()); result(a.shift(), e); } break;
        case 4: a.unshift(make(x)); m.insert(m.begin(), x); break;
        case 5: a.insert(make(x), h); m.insert(m.begin() + h, x); break;
        case 6: if (n) { E e = m[h]; m.erase(m.begin() + h); result(a.remove(h), e); } break;
        case 7: a.resize(h); m.resize(h); break;
        case 8: a.resize(2 * n); for (int i=0; i<n; i++) { E e = item(n + i); a.at(n + i) = make(e); m.push_back(e); } break;
        case 9: { var c = a.copy(); a.clear(); a = c; break; }
        case 10: a.presize(n + 100); check(a, "presized"); a.push(make(x)); m.push_back(x); break;
        case 11: { var c = a.copy(); if (n) c.at(h) = make(x); c.push(make(x)); MC_CHECK(c.size() == n + 1, "long size", "%s: the copy is of %d", what.c_str(), (int)c.size()); break; }
        case 12:
            if (n)
                for (int i : { 0, h, n - 1 })
                {
                    int want = std::find(m.begin(), m.end(), m[i]) - m.begin();
                    MC_CHECK((long)a.index(make(m[i])) == want, "long index", "%s: of element %d is %ld, should be %d", what.c_str(), i, (long)a.index(make(m[i])), want);
                }
            break;
        case 13: for (int i=0; i<n; i++) a.push(var(a.at(i))); for (int i=0; i<n; i++) m.push_back(E(m[i])); break;
        case 14:
        {
            var s = a.sort();
            MC_CHECK(s.size() == n, "long sort", "%s: has %d", what.c_str(), (int)s.size());
            for (int i=1; i<n; i++) MC_CHECK(!(s.at(i) < s.at(i-1)), "long sort", "%s: elements %d and %d are not in order", what.c_str(), i-1, i);
            // The same ones, since each occurs as many times
            for (int i=0; i<n; i+=7)
            {
                int k = 0;
                var e = make(m[i]);
                for (int j=0; j<n; j++) k += s.at(j) == e;
                MC_CHECK(k == (int)std::count(m.begin(), m.end(), m[i]), "long sort", "%s: element %d is there %d times", what.c_str(), i, k);
            }
            break;
        }
        case 15: a.clear(); MC_CHECK(!a.defined(), "long clear", "%s: is defined", what.c_str()); mc::state(what); return;
        case 16:
            if (T == TYPE_VAR || !n) mc::prune();
            a.insert(var(a), h);
            { auto c = m; m.insert(m.begin() + h, c.begin(), c.end()); }
            break;
        }
        check(a, "afterwards");
        mc::state(what);
    }
    void bigOnes()
    {
        int T = mc::pick(types);
        static const std::vector<int> ns = ref::bigSizes(4097), few = ref::bigSizes(1025);
        if (T == TYPE_VAR)
            longer<std::string>(T, few, [](int i) { return "s" + std::to_string(patn(i)); }, [](const std::string& s) { return var(s.c_str()); });
        else
            longer<cd>(T, ns, [T](int i) { return pat(T, i); }, [T](const cd& c) { return scalar(T, c); });
    }
}

int main(int argc, char** argv)
{
    using namespace mc;
    // The depth is the number of operations after construction
    mc::add("leaks", []{ histories(types, 8, 2); }, LEAK);
    mc::add("histories", []{ histories(types, mc::thorough() ? 8 : 3, 3); });
    mc::add("histories-deep", []{
        if (!mc::thorough()) return;
        histories(types, 3, 4);
    });
    mc::add("sizes", bigOnes);
    mc::bound("operations_all_types", 2);
    mc::bound("longest", 4097);
    mc::bound("operations_int_double_var", 3);
    return mc::run(argc, argv, "C01", "model_checking", {
        "sequences start from nil, a single value, or 2 or 3 elements, and two"
        " values of each element type are used",
        "allocation succeeds" });
}
