// C13: what is written as JSON reads back equal.
#include "json.h"
#include "big.h"
#include <fstream>
#include <iomanip>
#include <lube/var.h>
using namespace libube;
using js::Tree;

namespace
{
    // The text of v, in one of several kinds of stream
    std::string text(const var& v, int form)
    {
        switch (form)
        {
        case 0: { std::ostringstream s; s << v; return s.str(); }
        case 1: { varstream s; s << v; return ref::strOf((var)s); }
        case 2: { varstream s; s << std::setprecision(17) << v; return ref::strOf((var)s); }
        case 3: { std::ostringstream s; s << std::setw(7) << v; return s.str(); }
        case 4:
        {
            std::string f = mc::scratch() + "/json";
            { std::ofstream s(f); s << v; }
            std::ifstream s(f);
            std::stringstream r;
            r << s.rdbuf();
            return r.str();
        }
        case 5: { std::ostringstream s; s << std::showpos << std::setprecision(9) << v; return s.str(); }
        case 6:
        {
            // One that uses another locale, and still does afterwards
            std::ostringstream s;
            s.imbue(ref::foreign());
            s << v;
            std::string r = s.str();
            s.str("");
            s << 1234.5;
            MC_CHECK(s.str() == "1.234,5", "restore", "printing JSON changed the locale of the stream: %s", s.str().c_str());
            return r;
        }
        }
        abort();
    }

    var readBack(const std::string& s, int form)
    {
        var r;
        if (form & 1) { varstream v; v << s; v >> r; }
        else { std::istringstream v(s); if (form == 6) v.imbue(ref::foreign()); v >> r; }
        return r;
    }

    // Lines that v takes besides the first
    int lines(var v)
    {
        if (!v.defined()) return 0;
        // C38 is for views
        if (v.view()) return -1000000;
        int t = v.atype(), n = v.size(), r = 0;
        if (t != TYPE_VAR && t != TYPE_PAIR) return 0;
        for (int i=0; i<n; i++) r += 1 + lines(v.at(i));
        return r + (t == TYPE_VAR || n);
    }
    // Each element is on a line of its own, indented by the depth
    void layout(const var& v, const std::string& s, const std::string& what)
    {
        int depth = 0, nl = 0;
        bool str = false;
        for (size_t i=0; i<s.size(); i++)
            if (str) { if (s[i] == '\\') i++; else if (s[i] == '"') str = false; }
            else if (s[i] == '"') str = true;
            else if (s[i] == '{' || s[i] == '[') depth++;
            else if (s[i] == '}' || s[i] == ']') depth--;
            else if (s[i] == '\n')
            {
                nl++;
                size_t k = i + 1;
                while (k < s.size() && s[k] == ' ') k++;
                int d = depth - (k < s.size() && (s[k] == '}' || s[k] == ']'));
                MC_CHECK((int)(k - i - 1) == 2 * d, "layout", "%s is printed as %s, where line %d is indented by %d", what.c_str(), mc::quote(s).c_str(), nl, (int)(k - i - 1));
            }
        int want = lines(v);
        MC_CHECK(want < 0 || nl == want, "layout", "%s is printed as %s, which has %d lines, not %d", what.c_str(), mc::quote(s).c_str(), nl + 1, want + 1);
    }

    // v, which should hold t, to text and back
    void check(const var& v, const Tree& t, int form, double eps = 0, bool flat = false)
    {
        std::string before = ref::show(v);
        MC_NOTE("%s, form %d", before.c_str(), form);
        std::string s = text(v, form);
        mc::step();
        MC_CHECK(ref::show(v) == before, "changed", "printing %s changed it to %s", before.c_str(), ref::show(v).c_str());
        Tree parsed, got;
        size_t rest;
        bool slack;
        js::Verdict w = js::read(s, parsed, rest, slack);
        // showpos numbers are not strictly JSON
        MC_CHECK(form == 5 ? w != js::BAD : w == js::GOOD, "json", "%s is printed as %s, which is not JSON", before.c_str(), mc::quote(s).c_str());
        MC_CHECK(s.find_first_not_of(" \n", rest) == std::string::npos, "trailing", "%s is printed as %s, with trailing text",
                 before.c_str(), mc::quote(s).c_str());
        MC_CHECK(js::equal(t, parsed, eps), "text", "%s is printed as %s", before.c_str(), mc::quote(s).c_str());
        if (form != 3) layout(v, s, before);
        var r;
        try { r = readBack(s, form); }
        catch (std::exception& e)
        { mc::violate("throws", "%s is printed as %s, which cannot be read: %s", before.c_str(), mc::quote(s).c_str(), e.what()); }
        MC_CHECK(js::tree(r, got) && js::equal(t, got, eps), "back", "%s is printed as %s and read back as %s",
                 before.c_str(), mc::quote(s).c_str(), ref::show(r).c_str());
        // From then on nothing changes
        std::string s2 = text(r, form);
        var r2 = readBack(s2, form);
        MC_CHECK(ref::show(r2) == ref::show(r) && text(r2, form) == s2, "stable", "%s is read back as %s, then as %s",
                 before.c_str(), ref::show(r).c_str(), ref::show(r2).c_str());
        mc::state(s);
    }

    struct Val { var v; Tree t; };

    Val leaf(int n)
    {
        // Simplest first, so that fewer can be asked for
        switch (mc::choose(n))
        {
        case 0: return { var("a\"\n"), js::str("a\"\n") };
        case 1: return { var(), js::nul() };
        case 2: return { var(-7), js::num(-7L) };
        case 3: return { var(2.5), js::num(2.5) };
        case 4: return { var(""), js::str("") };
        case 5: { var e; e[nil]; Tree t; t.kind = Tree::MAP; return { e, t }; }
        case 6: { var a; a.resize(0); Tree t; t.kind = Tree::ARR; return { a, t }; }
        case 7: return { var(120000000000L), js::num(120000000000L) };
        case 8: return { var(0.25f), js::num(0.25) };
        case 9: { var a = { 1.5, 2.0 }; Tree t; t.kind = Tree::ARR; t.a = { js::num(1.5), js::num(2.0) }; return { a, t }; }
        case 10: return { var("null"), js::str("null") };
        case 11: return { var("1"), js::str("1") };
        }
        abort();
    }

    // An array or map of up to w values
    Val build(int depth, int w, int leaves)
    {
        int k = depth ? mc::choose(3) : 0;
        if (k == 0) return leaf(leaves);
        int n = mc::choose(w + 1);
        Val r;
        if (k == 1) { r.v.resize(0); r.t.kind = Tree::ARR; }
        else { r.v[nil]; r.t.kind = Tree::MAP; }
        static const char* keys[] = { "k", "", "\\" };
        for (int i=0; i<n; i++)
        {
            Val e = build(depth - 1, w, leaves);
            if (k == 1)
            {
                var a;
                a.array();
                r.v.resize(i + 1);
                r.v[i] = e.v;
                r.t.a.push_back(e.t);
            }
            else { r.v[keys[i]] = e.v; r.t.m[keys[i]] = e.t; }
        }
        return r;
    }

    void values(int depth, int w, int leaves, int forms)
    {
        int form = mc::choose(forms);
        Val v = build(depth, w, leaves);
        check(v.v, v.t, form);
    }

    void strings(int maxn)
    {
        static const char* alpha[] = { "a", "\"", "\\", "/", "\n", "\t", "\r", "\b", "\f", "\x01", "\x1f", "\x7f", " ", "\0", "u", "{", ",",
                                       "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80" };
        int where = mc::choose(5), form = where ? 0 : mc::choose(6);
        int n = mc::range(0, maxn);
        std::string s;
        for (int i=0; i<n; i++)
        {
            int k = mc::choose(20);
            s += k == 13 ? std::string(1, '\0') : std::string(alpha[k]);
        }
        var v = "";
        for (char c : s) v.push(c);
        Tree t = js::str(s), o;
        var out;
        switch (where)
        {
        case 0: out = v; o = t; break;
        case 1: out.resize(1); out[0] = v; o.kind = Tree::ARR; o.a = { t }; break;
        case 2: out["key"] = v; o.kind = Tree::MAP; o.m["key"] = t; break;
        case 3: out[v] = 1; o.kind = Tree::MAP; o.m[s] = js::num(1L); break;
        case 4: out["k"]["l"].resize(2); out["k"]["l"][1] = v; o.kind = Tree::MAP; o.m["k"].kind = Tree::MAP;
            o.m["k"].m["l"].kind = Tree::ARR; o.m["k"].m["l"].a = { js::nul(), t }; break;
        }
        check(out, o, form);
    }

    void bytes()
    {
        // Every ASCII character next to every other
        int a = mc::choose(128), b = mc::choose(128);
        std::string s = { (char)a, (char)b };
        var v = "";
        v.push((char)a);
        v.push((char)b);
        check(v, js::str(s), 0);
    }

    void numbers()
    {
        static const int ints[] = { 0, 1, -1, 2147483647, -2147483647 - 1, 1000000 };
        static const long longs[] = { 0, -1, 9223372036854775807L, -9223372036854775807L - 1, 1L << 53, 4294967296L };
        static const double dbls[] = { 0.0, -0.0, 0.5, -1.25, 1e10, 1e-5, 123456, 1e300, 2e-300, 999999, 0.1, 1000000, 3.0 };
        static const double more[] = { 1.0/3, 123456789.125, 5e-324, 1.7976931348623157e308, 9007199254740993.0 };
        int kind = mc::choose(5), form = mc::choose(6), wrap = mc::choose(4);
        var v;
        Tree t;
        double eps = 0;
        switch (kind)
        {
        case 0: { int i = mc::pick(ints); v = i; t = js::num((long)i); break; }
        case 1: { long i = mc::pick(longs); v = i; t = js::num(i); break; }
        case 2: { double i = mc::pick(dbls); v = i; t = js::num(i); break; }
        case 3: { float i = mc::pick(dbls); if (std::isinf(i) || (i != 0 && std::fabs(i) < 1e-30)) return; v = i; t = js::num((double)i); eps = 1e-7; break; }
        case 4: { double i = mc::pick(more); form = 2; v = i; t = js::num(i); break; }
        }
        if (wrap == 1) { var a = v; v = nil; v.push(a); v.array(); Tree u; u.kind = Tree::ARR; u.a = { t }; t = u; }
        if (wrap == 2) { var a = v; v = nil; v["x"] = a; Tree u; u.kind = Tree::MAP; u.m["x"] = t; t = u; }
        if (wrap == 3) { var a = v; v = nil; v.resize(2); v[0] = a; v[1] = "s"; Tree u; u.kind = Tree::ARR; u.a = { t, js::str("s") }; t = u; }
        check(v, t, form, eps);
    }

    // Arrays of numbers, as such, as views, and in other values
    void arrays()
    {
        static const int types[] = { TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE };
        static const double vals[] = { 1, -2, 0.5, 1e9 };
        int t = mc::pick(types), n = mc::range(0, 4), how = mc::choose(4), form = mc::choose(6);
        std::vector<ref::cd> x;
        Tree a;
        a.kind = Tree::ARR;
        for (int i=0; i<n; i++)
        {
            double d = mc::pick(vals);
            if (t < TYPE_FLOAT) { x.push_back((long)d); a.a.push_back(js::num((long)d)); }
            else { x.push_back(d); a.a.push_back(js::num(d)); }
        }
        var v = ref::array(t, x);
        if (how == 1) { if (!n) return; x.push_back(77); v = ref::array(t, x); v = v.view({n}); }
        if (how == 2) { if (n & 1 || !n) return; v = v.view({2, n/2}); }
        if (how == 3) { var w; w["a"].resize(2); w["a"][1] = v; v = w; Tree b; b.kind = Tree::MAP; b.m["a"].kind = Tree::ARR; b.m["a"].a = { js::nul(), a }; a = b; }
        check(v, a, form);
    }

    // Printing to a stream that already failed, or fails half way, says so
    struct Limited : std::streambuf
    {
        int n;
        Limited(int i) : n(i) {}
        int overflow(int c) override { return n-- > 0 ? c : EOF; }
    };
    void failing()
    {
        Val v = build(2, 2, 3);
        std::string all = text(v.v, 0);
        std::string before = ref::show(v.v);
        int n = mc::choose(all.size() + 1);
        Limited b(n);
        std::ostream s(&b);
        MC_NOTE("%s after %d", before.c_str(), n);
        s << v.v;
        mc::step();
        MC_CHECK(s.good() == (n >= (int)all.size()), "failing", "%s to a stream of %d characters leaves it %s", before.c_str(), n,
                 s.good() ? "good" : "bad");
        MC_CHECK(ref::show(v.v) == before, "changed", "printing %s changed it to %s", before.c_str(), ref::show(v.v).c_str());
    }

    // Long arrays, maps and strings, and deep ones
    void sizes()
    {
        static const std::vector<int> ns = ref::bigSizes(1025);
        int n = mc::pick(ns), kind = mc::choose(7), form = mc::choose(2);
        if (!n) mc::prune();                       // as others
        std::string what = "kind " + std::to_string(kind) + " of " + std::to_string(n) + ", form " + std::to_string(form);
        MC_NOTE("%s", what.c_str());
        var v;
        switch (kind)
        {
        case 0: v = ref::bigarr(TYPE_INT, n); break;
        case 1: { std::vector<ref::cd> x = ref::pats(TYPE_DOUBLE, n); for (auto& c : x) c += 0.25; v = ref::array(TYPE_DOUBLE, x); break; }
        case 2: v.resize(n); for (int i=0; i<n; i++) v.at(i) = ("s" + std::to_string(ref::patn(i))).c_str(); break;
        case 3: v[nil]; for (int i=0; i<n; i++) v[("k" + std::to_string(ref::patn(i) * 5000 + i)).c_str()] = i; break;
        case 4: { std::string s; for (int i=0; i<n; i++) s += " !\"\\/\n\t\x01zé"[ref::patn(i) % 9]; v = var((int)s.size(), s.data()); break; }
        case 5: v.resize(n); for (int i=0; i<n; i++) { var e = { "x", i }; v.at(i) = i % 3 ? e : i % 2 ? var("y") : var(nil); } break;
        case 6: { if (n > 257) mc::prune(); v = "in"; for (int i=0; i<n; i++) { var o; if (i % 3 == 1) o["k"] = v; else { o.resize(1 + i % 2); o.at(i % 2) = v; } v = o; } break; }
        }
        mc::step(n);
        std::string s = text(v, form ? 1 : 0);
        var r = readBack(s, form);
        std::string again = text(r, 0);
        // Not the whole of it, if it's wrong
        size_t d = 0;
        while (d < s.size() && d < again.size() && s[d] == again[d]) d++;
        MC_CHECK(s == again, "long", "%s is written and read back such that it is written otherwise, from %zu of %zu: %s, was %s", what.c_str(), d, s.size(),
                 mc::quote(again.substr(d, 40)).c_str(), mc::quote(s.substr(d, 40)).c_str());
        MC_CHECK(r.size() == v.size() || n == 0, "long", "%s has %d when read back", what.c_str(), (int)r.size());
        if (kind == 0 || kind == 1) for (int i=0; i<n; i++) MC_CHECK(ref::num(r.at(i)) == ref::num(v.at(i)), "long", "%s: element %d is read back as %s", what.c_str(), i, ref::show(r.at(i)).c_str());
        if (kind == 2) for (int i=0; i<n; i++) MC_CHECK(ref::show(r.at(i)) == ref::show(v.at(i)), "long", "%s: element %d is read back as %s", what.c_str(), i, ref::show(r.at(i)).c_str());
        if (kind == 3) for (int i=0; i<n; i++) MC_CHECK(r.key(i) == v.key(i) && ref::num(r.at(i)) == ref::num(v.at(i)), "long", "%s: entry %d is read back as %s", what.c_str(), i, ref::show(r.key(i)).c_str());
        if (kind == 4) MC_CHECK(n == 0 || ref::strOf(r) == ref::strOf(v), "long", "%s is read back otherwise", what.c_str());
        mc::state(what);
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::add("values", [=]{ values(1, 2, 12, 6); }, mc::LEAK);
    mc::add("nested", [=]{ values(2, 2, th ? 12 : 8, 1); }, mc::LEAK);
    mc::add("deep", [=]{ values(3, 2, th ? 2 : 1, 1); });
    mc::add("strings", [=]{ strings(th ? 4 : 3); });
    mc::add("bytes", bytes);
    mc::add("numbers", numbers);
    mc::add("arrays", arrays);
    mc::add("failing", failing);
    mc::add("sizes", sizes);
    mc::add("locale", [=]{ ref::Foreign f; switch (mc::choose(3)) { case 0: values(1, 2, 12, 7); break; case 1: numbers(); break; case 2: arrays(); break; } });
    mc::bound("depth", 3);
    return mc::run(argc, argv, "C13", "model_checking");
}
