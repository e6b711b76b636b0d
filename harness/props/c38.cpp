// C38: the printed form of views, tensors, characters and complex numbers.
#include "arr.h"
#include "big.h"
#include <iomanip>
#include <map>
using namespace libube;
using namespace ref;

namespace
{
    // How a stream is set up
    struct Style { int precision; bool fixed, pos; };
    const Style styles[] = { { 6, false, false }, { 3, true, false }, { 12, false, true } };
    void prepare(std::ostream& s, const Style& y)
    {
        s << std::setprecision(y.precision);
        if (y.fixed) s << std::fixed;
        if (y.pos) s << std::showpos;
    }

    // A number, by the standard library
    std::string number(int t, cd v, const Style& y)
    {
        std::ostringstream s;
        s.imbue(std::locale::classic());
        prepare(s, y);
        switch (t)
        {
        case TYPE_CHAR: s << '\'' << (char)v.real() << '\''; break;
        case TYPE_INT: s << (int)v.real(); break;
        case TYPE_LONG: s << (long)v.real(); break;
        case TYPE_FLOAT: s << (float)v.real(); break;
        case TYPE_DOUBLE: s << v.real(); break;
        case TYPE_CFLOAT: s << cf(v.real(), v.imag()); break;
        case TYPE_CDOUBLE: s << v; break;
        }
        return s.str();
    }
    cd val(int t, int i)
    {
        if (t == TYPE_CHAR) return cd('a' + i % 26);
        if (t == TYPE_INT || t == TYPE_LONG) return cd(i * 7 - 3);
        if (t >= TYPE_CFLOAT) return cd(i + 0.5, -i * 0.25);
        return cd(i * 1.5 - 2);
    }

    // Without the indentation
    std::string trim(const std::string& s)
    {
        std::string r;
        bool start = true;
        for (char c : s)
        {
            if (start && c == ' ') continue;
            start = c == '\n';
            r += c;
        }
        return r;
    }

    // What a view should look like
    template<class F> std::string view(const Shape& s, const Style& y, F elem)
    {
        int d = s.size(), n = 0;
        std::string r;
        if (d == 1)
        {
            for (int i=0; i<s[0]; i++) r += (i ? ", " : "") + elem(n++);
            return "[" + r + "]";
        }
        if (d > 2)
        {
            for (int i : s) r += (r.size() ? "x" : "") + number(TYPE_INT, i, y);
            r += " tensor:\n";
        }
        int mats = prod(s) / (s[d-2] * s[d-1]);
        for (int k=0; k<mats; k++)
        {
            r += k ? "\n[\n" : "[\n";
            for (int j=0; j<s[d-2]; j++)
            {
                for (int i=0; i<s[d-1]; i++)
                    r += (i ? " " : "") + elem(n++) + (j + 1 < s[d-2] || i + 1 < s[d-1] ? "," : "");
                r += "\n";
            }
            r += "]";
        }
        return r;
    }

    std::string text(const var& v, const Style& y, int stream)
    {
        if (stream) { varstream s; prepare(s, y); s << v; return strOf((var)s); }
        std::ostringstream s;
        prepare(s, y);
        s << v;
        return s.str();
    }
    void compare(const var& v, const std::string& want, const Style& y, int stream, const std::string& what)
    {
        mc::step();
        std::string was = ref::show(v), g = trim(text(v, y, stream));
        MC_CHECK(g == trim(want), "text", "%s is printed as\n%s\nand should be\n%s", what.c_str(), g.c_str(), want.c_str());
        MC_CHECK(ref::show(v) == was, "changed", "printing %s changed it to %s", was.c_str(), ref::show(v).c_str());
        mc::state(what + want);
    }

    void tensors(int maxd, int maxn)
    {
        static std::map<std::pair<int, int>, std::vector<Shape>> cache;
        auto& all = cache[{ maxd, maxn }];
        if (all.empty()) all = shapes(1, maxd, 1, maxn);
        const Shape& s = mc::pick(all);
        int t = mc::range(TYPE_CHAR, TYPE_CDOUBLE), off = mc::choose(2), holder = mc::choose(4), stream = mc::choose(2);
        const Style& y = styles[mc::choose(3)];
        int n = prod(s);
        std::vector<cd> x;
        for (int i=0; i<n+off+1; i++) x.push_back(val(t, i));
        var b = ref::array(t, x), v = b.view(vshape(s), off), h;
        auto elem = [&](int i) { return number(t, val(t, i + off), y); };
        std::string w = view(s, y, elem);
        std::string what = "view " + str(s) + " of " + tname(t) + " at " + std::to_string(off);
        MC_NOTE("%s, holder %d, stream %d", what.c_str(), holder, stream);
        switch (holder)
        {
        case 0: h = v; break;
        case 1: h = { "x", v, "y" }; w = "[\n\"x\",\n" + w + ",\n\"y\"\n]"; break;
        case 2: h["k"] = v; w = "{\n\"k\": " + w + "\n}"; break;
        case 3: { var g = { "z", v }; h = { "x", g }; w = "[\n\"x\",\n[\n\"z\",\n" + w + "\n]\n]"; break; }
        }
        compare(h, w, y, stream, what);
    }

    // Views of arrays of anything
    void mixed(int maxd, int maxn)
    {
        static std::map<std::pair<int, int>, std::vector<Shape>> cache;
        auto& all = cache[{ maxd, maxn }];
        if (all.empty()) all = shapes(1, maxd, 1, maxn);
        const Shape& s = mc::pick(all);
        int n = prod(s), first = mc::choose(4), off = mc::choose(2);
        auto kind = [&](int i) { return (i + first) % 4; };
        var b;
        b.resize(n + off);
        for (int i=0; i<n+off; i++)
            switch (kind(i))
            {
            case 0: b[i] = "a\"b"; break;
            case 1: b[i] = i; break;
            case 2: break;
            case 3: { int a[] = { 1, 2 }; b[i] = var(2, a); break; }
            }
        static const char* e[] = { "\"a\\\"b\"", 0, "null", "[1, 2]" };
        var v = b.view(vshape(s), off);
        std::string w = view(s, styles[0], [&](int i) { int k = kind(i + off); return e[k] ? std::string(e[k]) : std::to_string(i + off); });
        MC_NOTE("%s", ref::show(v).c_str());
        compare(v, w, styles[0], 0, "view " + str(s) + " of var " + std::to_string(first));
    }

    // Empty ones have no elements, and print
    void empty()
    {
        static const std::vector<Shape> all = shapes(1, 4, 0, 2);
        const Shape& s = mc::pick(all);
        int t = mc::range(TYPE_CHAR, TYPE_CDOUBLE), stream = mc::choose(2);
        if (prod(s)) mc::prune();
        var b = ref::array(t, { 7, 7 }), v = b.view(vshape(s));
        mc::step();
        std::string g = text(v, styles[0], stream), h = g;
        if (s.size() > 2)
        {
            std::string l = str(s) + " tensor:\n";
            MC_CHECK(g.compare(0, l.size(), l) == 0, "text", "view %s is printed as %s", str(s).c_str(), mc::quote(g).c_str());
            h = g.substr(l.size());
        }
        MC_CHECK(h.find_first_not_of("[] \n") == std::string::npos, "text", "view %s is printed as %s", str(s).c_str(), mc::quote(g).c_str());
        mc::state(str(s));
    }

    // Plain arrays and single values of all numeric types
    void plain(int maxn)
    {
        int t = mc::range(TYPE_CHAR, TYPE_CDOUBLE), n = mc::range(-1, maxn), stream = mc::choose(2), holder = mc::choose(3);
        const Style& y = styles[mc::choose(3)];
        std::vector<cd> x;
        for (int i=0; i<n; i++) x.push_back(val(t, i));
        std::string w;
        var v, h;
        if (n < 0) { v = scalar(t, val(t, 3)); w = number(t, val(t, 3), y); }
        else
        {
            v = ref::array(t, x);
            if (t == TYPE_CHAR) { for (auto c : x) w += (char)c.real(); w = "\"" + w + "\""; }
            else if (t == TYPE_CDOUBLE && n == 1) w = number(t, x[0], y);
            else if (t == TYPE_CDOUBLE)
            {
                w = "[\n";
                for (int i=0; i<n; i++) w += number(t, x[i], y) + (i + 1 < n ? ",\n" : "\n");
                w += "]";
            }
            else { for (int i=0; i<n; i++) w += (i ? ", " : "") + number(t, x[i], y); w = "[" + w + "]"; }
        }
        switch (holder)
        {
        case 0: h = v; break;
        case 1: h = { "x", v }; w = "[\n\"x\",\n" + w + "\n]"; break;
        case 2: h["k"] = v; h["l"] = 1; w = "{\n\"k\": " + w + ",\n\"l\": " + number(TYPE_INT, 1, y) + "\n}"; break;
        }
        compare(h, w, y, stream, std::string(tname(t)) + " " + std::to_string(n));
    }
    // Elements, by reference
    void elements()
    {
        int t = mc::range(TYPE_CHAR, TYPE_CDOUBLE), n = mc::range(1, 3), i = mc::choose(n), how = mc::choose(3);
        const Style& y = styles[mc::choose(3)];
        std::vector<cd> x;
        for (int j=0; j<n; j++) x.push_back(val(t, j));
        var a = ref::array(t, x), v = a.view({ 1, n }), h = { "x", a };
        var e = how == 0 ? a[i] : how == 1 ? v(0, i) : h[1][i];
        compare(e, number(t, x[i], y), y, 0, std::string("element of ") + tname(t));
    }

    // Large ones
    void sizes()
    {
        static const std::vector<int> ks = { 1, 2, 5, 8, 15, 16, 17, 33, 64, 65, 100 };
        int t = mc::range(TYPE_CHAR, TYPE_CDOUBLE), l = mc::pick(ks), m = mc::pick(ks), d = mc::choose(3);
        Shape s = d == 0 ? Shape{ l * m } : d == 1 ? Shape{ l, m } : Shape{ l, 2, m };
        std::vector<cd> x;
        for (int i=0; i<prod(s); i++) x.push_back(val(t, i));
        const Style& y = styles[mc::choose(2)];
        var b = ref::array(t, x), v = b.view(vshape(s));
        std::string what = "view " + str(s) + " of " + tname(t);
        MC_NOTE("%s", what.c_str());
        mc::step(x.size());
        std::string g = trim(text(v, y, 0)), w = trim(view(s, y, [&](int i) { return number(t, x[i], y); }));
        size_t p = 0;
        while (p < g.size() && p < w.size() && g[p] == w[p]) p++;
        MC_CHECK(g == w, "large", "%s is printed, from %zu of %zu, as %s, should be %s", what.c_str(), p, w.size(), mc::quote(g.substr(p, 60)).c_str(), mc::quote(w.substr(p, 60)).c_str());
        mc::state(what);
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::bound("dimensions", th ? 5 : 4);
    mc::add("tensors", [=]{ tensors(th ? 5 : 4, 3); });
    mc::add("mixed", [=]{ mixed(4, 3); });
    mc::add("empty", empty);
    mc::add("plain", [=]{ plain(th ? 12 : 4); });
    mc::add("elements", elements);
    mc::add("leaks", []{ tensors(3, 2); }, mc::LEAK);
    mc::add("leaks mixed", []{ mixed(3, 2); }, mc::LEAK);
    mc::add("sizes", sizes);
    mc::add("locale", []{ Foreign f; if (mc::choose(2)) tensors(3, 2); else mixed(3, 2); });
    return mc::run(argc, argv, "C38", "model_checking");
}
