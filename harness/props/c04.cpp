// C04: comparison is a total order consistent with equality.
#include "ref.h"
#include "bigops.h"
#include <algorithm>
#include <lube/math.h>
using namespace ref;
using namespace libube;

namespace
{
    // A value, and where it belongs: values of different class are never
    // equal; in a class, key (compared lexicographically) gives the order
    struct Item
    {
        std::string name;
        var v;
        std::string cls;               // type; "" if order is not prescribed
        std::vector<double> key;
    };

    double inf = std::numeric_limits<double>::infinity();

    var mkarr(int t, std::vector<double> v)
    {
        std::vector<cd> c(v.begin(), v.end());
        return ref::array(t, c);
    }

    std::vector<Item> build()
    {
        std::vector<Item> r;
        auto add = [&](var v, std::string cls, std::vector<double> key) {
            r.push_back({ref::show(v), v, cls, key});
        };
        add(nil, "nil", {});
        for (double d : {-2., 0., 1., 2.})
        {
            add((int)d, "int", {d});
            add((long)d, "long", {d});
        }
        add(std::numeric_limits<int>::max(), "int", {2147483647.});
        add(std::numeric_limits<int>::min(), "int", {-2147483648.});
        for (double d : {-1.5, 0., 0.25, 2.})
        {
            add((float)d, "float", {d});
            add(d, "double", {d});
        }
        add(inf, "double", {inf});
        add(-inf, "double", {-inf});
        for (char c : {'A', 'a', 'b'})
            add(c, "char", {(double)c});
        for (cd c : {cd(0,0), cd(1,0), cd(-1,0), cd(0,1), cd(2,-1)})
        {
            // By magnitude, then something
            add(cf(c.real(), c.imag()), "cfloat", {std::abs(c), c.real(), c.imag()});
            add(c, "", {});
        }
        for (const char* s : {"", "a", "aa", "ab", "b", "A"})
        {
            std::vector<double> k;
            for (const char* p = s; *p; p++) k.push_back(*p);
            add(s, "string", k);
        }
        for (int t : {TYPE_INT, TYPE_FLOAT, TYPE_LONG, TYPE_DOUBLE})
            for (auto v : std::vector<std::vector<double>>{
                    {1}, {1,2}, {1,3}, {2}, {0,5,1}, {-1,2}})
                add(mkarr(t, v), std::string("array of ") + tname(t), v);
        // Arrays of var
        add(var({"a","b"}), "strings", {'a',0,'b',0});
        add(var({"a","c"}), "strings", {'a',0,'c',0});
        add(var({"ab","a"}), "strings", {'a','b',0,'a',0});
        add(var({"b"}), "strings", {'b',0});
        add(var({"a","b","c"}), "strings", {'a',0,'b',0,'c',0});
        { var in = {1,2}, in2 = {1,3};
          add(var({in, in}), "", {}); add(var({in, in2}), "", {});
          add(var({in, "a"}), "", {}); var n; n.resize(2); n[0] = in; add(n, "", {}); }
        // Maps
        { var m; m["a"] = 1; add(m, "", {}); }
        { var m; m["a"] = 2; add(m, "", {}); }
        { var m; m["b"] = 1; add(m, "", {}); }
        { var m; m["a"] = 1; m["b"] = 1; add(m, "", {}); }
        { var m; m["a"]["x"] = 1; add(m, "", {}); }
        { var m; m["a"]["x"] = 2; add(m, "", {}); }
        // Views
        for (int o : {0, 1, 2})
        {
            var base = mkarr(TYPE_FLOAT, {1, 2, 3, 1, 2, 3, 1, 2});
            add(base.view({2, 3}, o), "", {});
            add(base.view({3, 2}, o), "", {});
            add(base.view({3}, o), "", {});
        }
        { var base = mkarr(TYPE_FLOAT, {1, 2, 3, 1, 2, 3, 1, 2});
          add(base.view({2, 3}, 2), "", {});
          add(mkarr(TYPE_FLOAT, {3, 1, 2, 3, 1, 2}), "array of float", {3,1,2,3,1,2});
          add(mkarr(TYPE_FLOAT, {1, 2, 3}), "array of float", {1,2,3}); }
        return r;
    }
    std::vector<Item>& items()
    {
        static std::vector<Item>* p = new std::vector<Item>(build());
        return *p;
    }

    // Are the two equal as far as we can see?
    // (a view is equal to an array, or another view, of the same elements)
    std::string flat(const std::string& s)
    { return s.compare(0, 5, "view(") ? s : s.substr(s.find(')') + 1); }
    bool same(const Item& a, const Item& b) { return flat(a.name) == flat(b.name); }

    struct R { bool lt, gt, eq, ne, le, ge; };
    R rel(const var& a, const var& b)
    { return { a < b, a > b, a == b, a != b, a <= b, a >= b }; }

    void laws(const Item& a, const Item& b, const R& r)
    {
        const char* x = a.name.c_str(); const char* y = b.name.c_str();
        MC_CHECK(r.eq == !r.ne, "eq", "== and != agree about %s and %s", x, y);
        MC_CHECK(r.lt + r.gt + r.eq == 1, "trichotomy",
                 "%s and %s: < is %d, > is %d, == is %d", x, y, r.lt, r.gt, r.eq);
        MC_CHECK(r.le == (r.lt || r.eq), "le", "%s <= %s is %d", x, y, r.le);
        MC_CHECK(r.ge == (r.gt || r.eq), "ge", "%s >= %s is %d", x, y, r.ge);
        MC_CHECK(r.eq == same(a, b), "equality", "%s == %s is %d", x, y, r.eq);
        if (a.cls != "" && a.cls == b.cls)
            MC_CHECK(r.lt == (a.key < b.key), "order", "%s < %s is %d", x, y, r.lt);
    }

    // How the value is held
    enum { DIRECT, INARRAY, INMAP, COPIED, NHELD };
    const char* held[] = { "direct", "element of array", "element of map", "copy" };

    void pairs()
    {
        auto& it = items();
        int i = mc::choose(it.size()), j = mc::choose(it.size());
        int hi = mc::choose(NHELD), hj = mc::choose(NHELD);
        MC_NOTE("%s (%s) and %s (%s)", it[i].name.c_str(), held[hi],
                it[j].name.c_str(), held[hj]);
        var arr;
        arr.resize(2);
        arr.at(0) = it[i].v;
        arr.at(1) = it[j].v;
        var m;
        m["i"] = it[i].v;
        m["j"] = it[j].v;
        // Element references
        auto hold = [&](int h, int k, const char* key) -> var {
            return h == DIRECT ? it[k ? j : i].v : h == INARRAY ? arr.at(k)
                : h == INMAP ? m.at(key) : it[k ? j : i].v.copy(); };
        mc::step();
        if (hi == INARRAY && hj == INARRAY)
            laws(it[i], it[j], rel(arr[0], arr[1]));
        else if (hi == INMAP && hj == INMAP)
            laws(it[i], it[j], rel(m["i"], m["j"]));
        else
            laws(it[i], it[j], rel(hold(hi, 0, "i"), hold(hj, 1, "j")));
        MC_CHECK(ref::show(it[i].v) == it[i].name && ref::show(it[j].v) == it[j].name,
                 "changed", "comparison of %s and %s changed one to %s or %s",
                 it[i].name.c_str(), it[j].name.c_str(),
                 ref::show(it[i].v).c_str(), ref::show(it[j].v).c_str());
        mc::state(mc::hash(&i, sizeof i, j * 16 + hi * 4 + hj));
    }

    // References into typed arrays
    void elements()
    {
        static const int types[] = { TYPE_CHAR, TYPE_INT, TYPE_LONG, TYPE_FLOAT,
                                     TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE };
        int t = mc::pick(types);
        static const cd vals[] = { cd(1), cd(2), cd(-1), cd(2,1), cd(2,-1) };
        int nv = t >= TYPE_CFLOAT ? 5 : t == TYPE_CHAR ? 2 : 3;
        int i = mc::choose(nv), j = mc::choose(nv);
        int how = mc::choose(3);
        var a = ref::array(t, { vals[i], vals[j] });
        var x = ref::scalar(t, vals[i]), y = ref::scalar(t, vals[j]);
        MC_NOTE("elements of %s", ref::show(a).c_str());
        Item I = { ref::show(x), x, t >= TYPE_CDOUBLE ? "cdouble" : tname(t), {} }, J = I;
        J.name = ref::show(y);
        auto key = [&](cd c) {
            return t >= TYPE_CFLOAT ? std::vector<double>{ std::abs(c), c.real(), c.imag() }
                : std::vector<double>{ c.real() }; };
        I.key = key(vals[i]); J.key = key(vals[j]);
        mc::step();
        if (how == 0) laws(I, J, rel(a.at(0), a.at(1)));
        if (how == 1) laws(I, J, rel(a.at(0), y));
        if (how == 2) laws(I, J, rel(x, a[1]));
        mc::state(mc::hash(&i, sizeof i, 1000000 + t * 64 + j * 8 + how));
    }

    void triples()
    {
        auto& it = items();
        int n = it.size();
        int i = mc::choose(n), j = mc::choose(n);
        bool ij = it[i].v < it[j].v, eij = it[i].v == it[j].v;
        mc::step(n);
        for (int k=0; k<n; k++)
        {
            bool jk = it[j].v < it[k].v, ik = it[i].v < it[k].v;
            if (ij && jk)
                MC_CHECK(ik, "transitive", "%s < %s < %s, but the first is not"
                         " less than the last", it[i].name.c_str(),
                         it[j].name.c_str(), it[k].name.c_str());
            if (eij)
                MC_CHECK(ik == jk, "substitution", "%s == %s but compare"
                         " differently with %s", it[i].name.c_str(),
                         it[j].name.c_str(), it[k].name.c_str());
        }
        MC_NOTE("%s and %s with each of the %d values", it[i].name.c_str(),
                it[j].name.c_str(), n);
        mc::state(mc::hash(&i, sizeof i, 2000000 + j));
    }

    // Sorting
    void sorting(int maxLen)
    {
        static const int types[] = { TYPE_INT, TYPE_FLOAT, TYPE_DOUBLE, TYPE_CHAR,
                                     TYPE_LONG, TYPE_CFLOAT, TYPE_CDOUBLE, TYPE_VAR };
        int t = mc::pick(types);
        static const cd rv[] = { cd(2), cd(-1), cd(7) };
        static const cd cv[] = { cd(2,1), cd(2,-1), cd(0,1) };
        static const cd hv[] = { cd('b'), cd('a'), cd('Z') };
        static const char* sv[] = { "b", "", "ab" };
        const cd* vals = t >= TYPE_CFLOAT ? cv : t == TYPE_CHAR ? hv : rv;
        int n = mc::range(1, maxLen);
        std::vector<int> ix;
        for (int i=0; i<n; i++) ix.push_back(mc::choose(3));
        std::vector<cd> c;
        for (int i : ix) c.push_back(vals[i]);
        auto mk = [&] {
            if (t == TYPE_VAR)
            { var r; r.array(); r = var({sv[ix[0]]}); r.resize(n);
              for (int i=0; i<n; i++) r[i] = sv[ix[i]]; return r; }
            return ref::array(t, c);
        };
        auto less = [&](int a, int b) {
            if (t == TYPE_VAR) return std::string(sv[a]) < std::string(sv[b]);
            cd x = vals[a], y = vals[b];
            if (t >= TYPE_CFLOAT && std::abs(x) != std::abs(y))
                return std::abs(x) < std::abs(y);
            if (x.real() != y.real()) return x.real() < y.real();
            return x.imag() < y.imag();
        };
        auto want = [&](std::vector<int> v, int off, int len) {
            std::sort(v.begin()+off, v.begin()+off+len, less);
            std::string s;
            for (int i : v)
                s += (t == TYPE_VAR ? mc::quote(sv[i]) : fmt(as(t, vals[i]))) + " ";
            return s;
        };
        auto got = [&](const var& v) {
            std::string s;
            for (int i=0; i<v.size(); i++)
                s += (t == TYPE_VAR ? ref::show(v.at(i)) : fmt(num(v.at(i)))) + " ";
            return s;
        };
        var a = mk();
        std::string before = got(a);
        MC_NOTE("sort %s of %s", before.c_str(), tname(t));
        var s = a.sort();
        mc::step();
        MC_CHECK(got(s) == want(ix, 0, n), "sort", "sort() of %s is %s",
                 before.c_str(), got(s).c_str());
        MC_CHECK(got(a) == before, "sort", "sort() changed %s to %s",
                 before.c_str(), got(a).c_str());
        // The functor sorts in place (it is not defined for complex types)
        if (t < TYPE_CFLOAT)
        {
            var b = a.copy();
            libube::sort(b, b);
            mc::step();
            MC_CHECK(got(b) == want(ix, 0, n), "functor", "sort functor of %s"
                     " is %s", before.c_str(), got(b).c_str());
            // ..and on a part of an array
            if (n > 1)
            {
                int len = mc::range(1, n-1), off = mc::range(0, n-len);
                var c = a.copy();
                var v = c.view({len}, off);
                MC_NOTE("view of %d at %d", len, off);
                libube::sort(v, v);
                mc::step();
                MC_CHECK(got(c) == want(ix, off, len), "view", "sort of %d"
                         " elements at %d of %s gave %s", len, off,
                         before.c_str(), got(c).c_str());
            }
        }
        mc::state(before + tname(t));
    }
    // The whole width of each type; the order is that of C++
    template<class T> void wide(std::vector<T> x, int t)
    {
        int n = x.size(), i = mc::choose(n), j = mc::choose(n), how = mc::choose(7);
        auto arr = [&](std::vector<T> e) {
            var a = var(T());
            a.array();
            a.resize(e.size());
            for (size_t k=0; k<e.size(); k++) *a.ptr<T>(k) = e[k];
            return a;
        };
        var a, b;
        switch (how)
        {
        case 0: a = x[i]; b = x[j]; break;
        case 1: a = arr({ x[i] }); b = arr({ x[j] }); break;
        case 2: a = arr({ x[0], x[i] }); b = arr({ x[0], x[j] }); break;
        case 3: a = arr({ x[i], x[j] }); b = arr({ x[j], x[i] }); break;
        case 4: a.resize(1); a[0] = x[i]; b.resize(1); b[0] = x[j]; break;
        case 5: a = arr({ x[0], x[i], x[1] }).view({ 2 }, 1); b = arr({ x[j], x[1] }).view({ 2 }); break;
        case 6: a = arr({ x[j], x[i] })[1]; b = arr({ x[i], x[j] })[1]; break;
        }
        auto text = [&](int k) { std::ostringstream o; o.precision(20); o << tname(t) << " "; if (sizeof(T) == 1) o << (int)x[k]; else o << x[k]; return o.str(); };
        MC_NOTE("%s and %s (%d)", text(i).c_str(), text(j).c_str(), how);
        mc::step();
        R r = rel(a, b);
        MC_CHECK(r.eq == (x[i] == x[j]) && r.lt == (x[i] < x[j]) && r.gt == (x[i] > x[j]) && r.ne == !r.eq && r.le == !r.gt && r.ge == !r.lt,
                 "wide", "%s and %s (%d): <%d >%d ==%d !=%d <=%d >=%d", text(i).c_str(), text(j).c_str(), how, r.lt, r.gt, r.eq, r.ne, r.le, r.ge);
        mc::state(mc::hash(&i, sizeof i, 3000000 + t * 10000 + j * 100 + how));
        // Also in order, and as keys
        if (how) return;
        int k = mc::choose(mc::thorough() ? n : std::min(n, 5));
        if (!mc::thorough()) k = k * (n-1) / std::min(n-1, 4);
        std::vector<T> w = { x[i], x[j], x[k] };
        var l = arr(w), m, s = l.sort();
        for (T y : w) m[var(y)] = 1;
        std::sort(w.begin(), w.end());
        libube::sort(l, l);
        mc::step();
        for (int q=0; q<3; q++)
            MC_CHECK(s[q].template get<T>() == w[q] && l[q].template get<T>() == w[q], "wide-sort", "sort of %s, %s, %s gives something else at %d", text(i).c_str(), text(j).c_str(), text(k).c_str(), q);
        w.erase(std::unique(w.begin(), w.end()), w.end());
        MC_CHECK(m.size() == (int)w.size(), "wide-keys", "%s, %s, %s as keys are %d", text(i).c_str(), text(j).c_str(), text(k).c_str(), m.size());
        for (int q=0; q<m.size(); q++)
            MC_CHECK(m.key(q).template get<T>() == w[q], "wide-keys", "keys of %s, %s, %s are in another order", text(i).c_str(), text(j).c_str(), text(k).c_str());
    }
    template<class T> std::vector<T> integers()
    {
        typedef std::numeric_limits<T> L;
        std::vector<T> r = { 0, 1, L::max(), (T)(L::max()-1), 2, (T)(L::max()/2+1), (T)(L::max()/2) };
        for (int b : { 7, 8, 15, 16, 24, 31, 32, 33, 53 }) if (b < L::digits) { r.push_back((T)1 << b); r.push_back(((T)1 << b) + 1); r.push_back(((T)1 << b) - 1); }
        // (chars are kept to ASCII)
        if (sizeof(T) > 1) { int n = r.size(); for (int i=1; i<n; i++) r.push_back(-r[i]); r.push_back(L::min()); }
        std::sort(r.begin(), r.end());
        r.erase(std::unique(r.begin(), r.end()), r.end());
        return r;
    }
    template<class T> std::vector<T> reals()
    {
        typedef std::numeric_limits<T> L;
        std::vector<T> r = { 0, L::infinity() };
        for (T x : { (T)1, (T)2, (T)0.1, (T)16777216, (T)2147483648., (T)1e10, (T)9007199254740992., (T)1e30, L::max(), L::min(), L::denorm_min() })
        { r.push_back(x); r.push_back(std::nextafter(x, L::infinity())); r.push_back(std::nextafter(x, (T)0)); }
        int n = r.size();
        for (int i=1; i<n; i++) if (r[i] != 0) r.push_back(-r[i]);
        std::sort(r.begin(), r.end());
        r.erase(std::unique(r.begin(), r.end()), r.end());
        return r;
    }
    void wides()
    {
        switch (mc::choose(5))
        {
        case 0: wide(integers<char>(), TYPE_CHAR); break;
        case 1: wide(integers<int>(), TYPE_INT); break;
        case 2: wide(integers<long>(), TYPE_LONG); break;
        case 3: wide(reals<float>(), TYPE_FLOAT); break;
        case 4: wide(reals<double>(), TYPE_DOUBLE); break;
        }
    }
    // Strings of all bytes of ASCII, the order of which is that of C++
    void strings(int maxLen)
    {
        static const char alphabet[] = { 0, 1, ' ', 'a', 'b', 127 };
        auto str = [&] { std::string r; int n = mc::range(0, maxLen); for (int i=0; i<n; i++) r += alphabet[mc::choose(6)]; return r; };
        std::string x = str(), y = str();
        var a((int)x.size(), x.data()), b((int)y.size(), y.data());
        MC_NOTE("%s and %s", mc::quote(x).c_str(), mc::quote(y).c_str());
        mc::step();
        R r = rel(a, b);
        MC_CHECK(r.eq == (x == y) && r.lt == (x < y) && r.gt == (x > y) && r.ne == !r.eq && r.le == !r.gt && r.ge == !r.lt,
                 "strings", "%s and %s: <%d >%d ==%d !=%d <=%d >=%d", mc::quote(x).c_str(), mc::quote(y).c_str(), r.lt, r.gt, r.eq, r.ne, r.le, r.ge);
        mc::state(mc::quote(x) + mc::quote(y));
    }
}

int main(int argc, char** argv)
{
    items();
    mc::add("pairs", pairs);
    mc::add("elements", elements, mc::LEAK);
    mc::add("triples", triples);
    mc::add("wide", wides);
    mc::add("strings", []{ strings(mc::thorough() ? 4 : 3); });
    mc::add("sort", []{ sorting(mc::thorough() ? 6 : 4); }, mc::LEAK);
    mc::add("sizes", big::compare);
    mc::bound("values", items().size());
    mc::bound("sort_length", mc::thorough() ? 6 : 4);
    return mc::run(argc, argv, "C04", "model_checking", {
        "NaN is not ordered and is left out" });
}
