// C15: string operations.
#include "ref.h"
#include "big.h"
#include <lube/string.h>
using namespace libube;
using mc::quote;
typedef std::vector<std::string> Strs;

namespace
{
    var str(const std::string& s) { var v = ""; v.append<char>(s.size(), s.data()); return v; }
    bool isStr(const var& v)
    { return v.defined() && (long)v.type() == TYPE_ARRAY && (long)v.atype() == TYPE_CHAR; }
    // The contents, which str() must give as well
    std::string get(const var& v, const char* sig)
    {
        MC_CHECK(isStr(v), sig, "%s is not a string", ref::show(v).c_str());
        std::string s = ref::strOf(v);
        const char* c = v.str();
        MC_CHECK(memcmp(c, s.data(), s.size()) == 0 && c[s.size()] == 0, "terminated", "str() of %s is %s", quote(s).c_str(), quote(c).c_str());
        return s;
    }
    std::string show(const Strs& s)
    {
        std::string r;
        for (auto& x : s) r += (r.size() ? ", " : "") + quote(x);
        return "[" + r + "]";
    }
    Strs strs(const var& v, const char* sig)
    {
        Strs r;
        if (!v.defined()) return r;
        MC_CHECK((long)v.atype() == TYPE_VAR, sig, "%s is not an array of strings", ref::show(v).c_str());
        for (int i=0; i<v.size(); i++) r.push_back(get(v.at(i), sig));
        return r;
    }
    std::string text(int maxn, const std::string& alpha)
    {
        int n = mc::range(0, maxn);
        std::string s;
        for (int i=0; i<n; i++) s += alpha[mc::choose(alpha.size())];
        return s;
    }
    bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

    void splitSep(int maxn)
    {
        static const char* seps[] = { ",", "ab", ",,", "a", "aba" };
        std::string s = text(maxn, std::string("ab,\0", 4));
        const char* sep = mc::pick(seps);
        int max = mc::choose(6);
        Strs want;
        size_t p = 0, q;
        while ((max == 0 || (int)want.size() < max - 1) && (q = s.find(sep, p)) != std::string::npos)
        { want.push_back(s.substr(p, q - p)); p = q + strlen(sep); }
        want.push_back(s.substr(p));
        MC_NOTE("%s split(%s, %d)", quote(s).c_str(), quote(sep).c_str(), max);
        var v = str(s);
        var r = max ? v.split(sep, max) : v.split(sep);
        mc::step();
        Strs g = strs(r, "split");
        MC_CHECK(g == want, "split", "%s split(%s, %d) gives %s, should be %s", quote(s).c_str(), quote(sep).c_str(), max,
                 show(g).c_str(), show(want).c_str());
        MC_CHECK(get(r.join(sep), "rejoin") == s, "rejoin", "%s split and joined by %s is %s", quote(s).c_str(), quote(sep).c_str(),
                 quote(get(r.join(sep), "rejoin")).c_str());
        MC_CHECK(get(v, "source") == s && strs(r, "source") == want, "source", "split changed %s", quote(s).c_str());
        MC_CHECK(ref::throws([&] { var x = v.split(""); }), "empty", "split by nothing does not throw");
        mc::state(s + "/" + sep + char('0' + max));
    }

    void splitSpace(int maxn, const std::string& alpha)
    {
        std::string s = text(maxn, alpha);
        int max = mc::choose(6);
        Strs want;
        size_t p = 0;
        auto skip = [&] { while (p < s.size() && space(s[p])) p++; };
        skip();
        while (p < s.size())
        {
            if (max && (int)want.size() == max - 1) { want.push_back(s.substr(p)); break; }
            size_t b = p;
            while (p < s.size() && !space(s[p])) p++;
            want.push_back(s.substr(b, p - b));
            skip();
        }
        MC_NOTE("%s split(%d)", quote(s).c_str(), max);
        var v = str(s);
        var r = max ? v.split(max) : v.split();
        mc::step();
        Strs g = strs(r, "words");
        MC_CHECK(g == want, "words", "%s split(%d) gives %s, should be %s", quote(s).c_str(), max, show(g).c_str(), show(want).c_str());
        MC_CHECK(get(v, "source") == s, "source", "split changed %s", quote(s).c_str());
        mc::state(s + char('0' + max));
    }

    void joins()
    {
        static const std::string parts[] = { "", "a", "bc", ",", std::string("d\0e", 3) };
        static const char* seps[] = { "", ",", "ab" };
        int n = mc::range(0, 4);
        const char* sep = mc::pick(seps);
        var v;
        v.resize(0);
        std::string want;
        Strs was;
        for (int i=0; i<n; i++)
        {
            const std::string& p = mc::pick(parts);
            v.push(str(p));
            was.push_back(p);
            if (i) want += sep;
            want += p;
        }
        MC_NOTE("%s join(%s)", ref::show(v).c_str(), quote(sep).c_str());
        for (int k=0; k<2; k++)
        {
            var r = v.join(sep);
            mc::step();
            std::string g = get(r, "join");
            MC_CHECK(g == want, "join", "%s join(%s) gives %s", show(was).c_str(), quote(sep).c_str(), quote(g).c_str());
            MC_CHECK(strs(v, "join") == was, "source", "join changed %s to %s", show(was).c_str(), ref::show(v).c_str());
            r.push('x');
            MC_CHECK(strs(v, "join") == was, "shared", "the result of joining %s is not independent", show(was).c_str());
        }
        // A string is already joined
        var s = str(want);
        MC_CHECK(get(s.join(sep), "join") == want, "join", "joining a string");
        mc::state(want);
    }

    std::string expected(int f, const std::string& s)
    {
        std::string r = s;
        if (f == 0) for (auto& c : r) { if (c >= 'a' && c <= 'z') c -= 32; }
        else if (f == 1) for (auto& c : r) { if (c >= 'A' && c <= 'Z') c += 32; }
        else
        {
            while (r.size() && space(r.back())) r.pop_back();
            while (r.size() && space(r[0])) r.erase(0, 1);
        }
        return r;
    }
    const StringFunctor& functor(int f)
    { return f == 0 ? (const StringFunctor&)libube::toupper : f == 1 ? (const StringFunctor&)libube::tolower : libube::strip; }
    const char* fname[] = { "toupper", "tolower", "strip" };

    // One string in every calling form
    void one(const std::string& s)
    {
        int f = mc::choose(3), form = mc::choose(8);
        const StringFunctor& F = functor(f);
        std::string want = expected(f, s);
        MC_NOTE("%s of %s, form %d", fname[f], quote(s).c_str(), form);
        var v = str(s), r, arr;
        bool inplace = false;
        switch (form)
        {
        case 0: r = F(v); break;
        case 1: F(v, v); r = v; inplace = true; break;
        case 2: r = f == 0 ? v.toupper() : f == 1 ? v.tolower() : v.strip(); inplace = true; break;
        case 3: F(v, r); break;                                   // Into nil
        case 4: r = "something longer"; F(v, r); break;
        case 5: r = "a"; F(v, r); break;
        case 6: arr.resize(2); arr[0] = v; arr[1] = "Other"; F(arr.at(0), r); break;
        case 7: { var w = v; F(v, v); r = w; inplace = true; break; }   // A shared string is changed for both
        }
        mc::step();
        std::string g = get(r, fname[f]);
        MC_CHECK(g == want, fname[f], "%s of %s, form %d, is %s, should be %s", fname[f], quote(s).c_str(), form,
                 quote(g).c_str(), quote(want).c_str());
        std::string now = get(v, fname[f]);
        MC_CHECK(now == (inplace ? want : s), "source", "%s, form %d, changed %s to %s", fname[f], form, quote(s).c_str(), quote(now).c_str());
        // ..and the result can still grow
        r.append("xyz");
        MC_CHECK(get(r, fname[f]) == want + "xyz", "append", "appending to %s of %s gives %s", fname[f], quote(s).c_str(), ref::show(r).c_str());
        mc::state(want + char('0' + f));
    }

    // Arrays of strings, nested
    void arrays()
    {
        static const char* parts[] = { "", "aB", " cD ", "\t" };
        int f = mc::choose(3), form = mc::choose(4), n = mc::range(0, 3);
        Strs was, want;
        var v;
        v.resize(0);
        bool nest = mc::flip();
        for (int i=0; i<n; i++)
        {
            was.push_back(mc::pick(parts));
            want.push_back(expected(f, was.back()));
            if (nest && i) { v.resize(2); v[1].resize(0); for (int k=1; k<=i; k++) v[1].push(was[k].c_str()); }
            else v.push(was.back().c_str());
        }
        MC_NOTE("%s of %s, form %d", fname[f], ref::show(v).c_str(), form);
        var in = v, r;
        std::string before = ref::show(v);
        const StringFunctor& F = functor(f);
        bool inplace = form == 1 || form == 2;
        if (form == 0)
        {
            // Nested arrays can't be allocated, which is an error
            bool threw = ref::throws([&] { r = F(v); });
            MC_CHECK(!threw || (nest && n > 1), "array", "%s of %s throws", fname[f], before.c_str());
            if (threw) { MC_CHECK(ref::show(in) == before, "source", "%s of %s changed it", fname[f], before.c_str()); return; }
        }
        else if (form == 1) { F(v, v); r = v; }
        else if (form == 2) { r = f == 0 ? v.toupper() : f == 1 ? v.tolower() : v.strip(); }
        else { r = v.copy(); for (int i=0; i<r.size(); i++) if (isStr(r.at(i))) r[i] = "was"; if (nest && n > 1) { var w; w.resize(n - 1); for (int i=0; i<n-1; i++) w[i] = "was"; r[1] = w; } F(v, r); }
        mc::step();
        Strs flat;
        for (int i=0; i<r.size(); i++)
            if (isStr(r.at(i))) flat.push_back(get(r.at(i), "array"));
            else for (auto& x : strs(r.at(i), "array")) flat.push_back(x);
        MC_CHECK(flat == want, "array", "%s of %s, form %d, is %s", fname[f], before.c_str(), form, ref::show(r).c_str());
        if (!inplace)
            MC_CHECK(ref::show(in) == before, "source", "%s of %s changed it to %s", fname[f], before.c_str(), ref::show(in).c_str());
        mc::state(before);
    }

    // Things that are not strings are refused, or unaffected, but no worse
    void others()
    {
        int f = mc::choose(3), k = mc::choose(9), form = mc::choose(2), wrap = mc::choose(2);
        var v;
        switch (k)
        {
        case 0: break;
        case 1: v = 3; break;
        case 2: v = 2.5; break;
        case 3: v = var(ref::cd(1, 2)); break;
        case 4: v = 'c'; break;
        case 5: v = ref::array(TYPE_INT, {1, 2}); break;
        case 6: v = ref::array(TYPE_CDOUBLE, {1, 2}); break;
        case 7: v["Key"] = "Value"; break;
        case 8: v = ref::array(TYPE_FLOAT, {65, 32}); break;
        }
        if (wrap) { var w; w.resize(2); w[1] = v; v = w; }
        std::string before = ref::show(v);
        MC_NOTE("%s of %s", fname[f], before.c_str());
        bool threw = ref::throws([&] { var r; if (form) functor(f)(v, v); else r = functor(f)(v); });
        mc::step();
        if (k != 4 && k != 7)
            MC_CHECK(ref::show(v) == before, "others", "%s of %s %s and leaves %s", fname[f], before.c_str(), threw ? "throws" : "returns", ref::show(v).c_str());
        mc::state(before);
    }

    // Append and insert
    void inserts(int maxn)
    {
        std::string s = text(maxn, "ab"), t = text(maxn, "xy");
        int form = mc::choose(8);
        int at = form >= 3 ? mc::range(-1, s.size() + 1) : s.size();
        MC_NOTE("%s into %s at %d, form %d", quote(t).c_str(), quote(s).c_str(), at, form);
        var v = str(s), u = str(t);
        if (form == 7) { s = ""; v = nil; if (at) return; }
        if (form == 4) { u = v; t = s; }              // Itself
        if (form == 5) { if (t.size() != 1) return; u = var(t[0]); }
        bool bad = at < 0 || at > (int)s.size();
        bool threw = ref::throws([&] {
            switch (form)
            {
            case 0: v.append(t.c_str()); break;
            case 1: v.append(u); break;
            case 2: v.append<char>(t.size(), t.data()); break;
            case 3: case 4: case 5: case 7: v.insert(u, at); break;
            case 6: { var a; a.resize(1); a[0] = u; v.insert(a.at(0), at); break; }
            }
        });
        mc::step();
        MC_CHECK(threw == bad, "range", "insertion of %s into %s at %d %s", quote(t).c_str(), quote(s).c_str(), at, threw ? "throws" : "does not throw");
        std::string want = s;
        if (!bad) want.insert(at, t);
        std::string g = form == 7 && threw ? "" : get(v, "insert");
        MC_CHECK(g == want, "insert", "%s into %s at %d, form %d, gives %s", quote(t).c_str(), quote(s).c_str(), at, form, quote(g).c_str());
        if (form != 4) MC_CHECK((form == 5 ? ref::show(u) == ref::show(var(t[0])) : get(u, "source") == t), "source",
                                "insertion changed the inserted string %s to %s", quote(t).c_str(), ref::show(u).c_str());
        // They are not the same string afterwards
        if (form != 4 && form != 5 && !threw)
        {
            v.push('!');
            MC_CHECK(get(u, "shared") == t, "shared", "the inserted string %s became %s", quote(t).c_str(), ref::show(u).c_str());
        }
        mc::state(want);
    }

    // Histories of one string
    void histories(int depth)
    {
        std::string m;
        var v = "";
        for (int k=0; k<depth; k++)
        {
            int op = mc::choose(14);
            switch (op)
            {
            case 0: MC_NOTE("append \"Ab\""); v.append("Ab"); m += "Ab"; break;
            case 1: MC_NOTE("append nothing"); v.append(""); break;
            case 2: MC_NOTE("insert \" c\" at 0"); v.insert(" c"); m = " c" + m; break;
            case 3: MC_NOTE("push"); v.push('z'); m += 'z'; break;
            case 4:
                MC_NOTE("pop");
                if (m.empty()) mc::prune();
                { char c = v.pop().get<char>(); MC_CHECK(c == m.back(), "pop", "pop gave '%c', not '%c'", c, m.back()); }
                m.pop_back();
                break;
            case 5: MC_NOTE("toupper"); v.toupper(); m = expected(0, m); break;
            case 6: MC_NOTE("tolower"); libube::tolower(v, v); m = expected(1, m); break;
            case 7: MC_NOTE("strip"); v.strip(); m = expected(2, m); break;
            case 8: MC_NOTE("append itself"); if (m.size() > 20) mc::prune(); v.append(v); m += m; break;
            case 9: MC_NOTE("[0] = 'q'"); if (m.empty()) mc::prune(); v[0] = 'q'; m[0] = 'q'; break;
            case 10: MC_NOTE("copy"); v = v.copy(); break;
            case 11: MC_NOTE("resize to half"); v.resize(m.size() / 2); m.resize(m.size() / 2); break;
            case 12: { MC_NOTE("split and join by A"); var r = v.split("A"); v = r.join("-"); std::string o; for (char c : m) o += c == 'A' ? '-' : c; m = o; break; }
            case 13: { MC_NOTE("assign through a stream"); varstream s; s << v.str() << 1; v = s; m += "1"; break; }
            }
            mc::step();
            std::string g = get(v, "history");
            MC_CHECK(g == m, "history", "the string is %s, should be %s", quote(g).c_str(), quote(m).c_str());
            mc::state(m);
        }
    }

    void allBytes()
    {
        int a = mc::choose(255) + 1, b = mc::choose(3);
        std::string s = { (char)a };
        if (b == 1) s = "a" + s;
        if (b == 2) s += " Z";
        one(s);
    }

    // Long strings
    void sizes()
    {
        static const std::vector<int> ns = ref::bigSizes(1025);
        static const std::string seps[] = { ",", " ", "--", "abc" };
        int n = mc::pick(ns), f = mc::choose(7);
        const std::string& sep = mc::pick(seps);
        std::string what = "operation " + std::to_string(f) + ", separator " + quote(sep) + ", " + std::to_string(n) + " parts";
        MC_NOTE("%s", what.c_str());
        std::vector<std::string> w;
        std::string all, up, low;
        for (int i=0; i<n; i++)
        {
            std::string s;
            for (int k=ref::patn(i) % 9; k>=0; k--) s += "xYz"[(i + k) % 3];
            w.push_back(s);
            all += (i ? sep : "") + s;
        }
        up = low = all;
        for (auto& c : up) c = std::toupper(c);
        for (auto& c : low) c = std::tolower(c);
        var v = all.c_str(), r;
        mc::step(n);
        auto is = [&](const var& r, const std::vector<std::string>& w) {
            MC_CHECK((int)r.size() == (int)w.size(), "long", "%s gives %d, should be %zu", what.c_str(), (int)r.size(), w.size());
            int d = ref::differs(r, w);
            MC_CHECK(d < 0, "long", "%s: part %d is %s", what.c_str(), d, ref::show(r.at(d)).c_str());
        };
        auto str = [&](const var& r, const std::string& s) {
            MC_CHECK(ref::strOf(r) == s && r.atype<char>() && std::string(var(r).str()) == s, "long", "%s gives a string of %d, should be %zu", what.c_str(), (int)r.size(), s.size());
        };
        switch (f)
        {
        case 0: if (!n) break; r = v.split(sep.c_str()); is(r, w); str(r.join(sep.c_str()), all); break;
        case 1:
        {
            // Only so many
            if (n < 4) mc::prune();
            int m = n / 2;
            r = v.split(sep.c_str(), m);
            std::vector<std::string> some(w.begin(), w.begin() + m - 1);
            std::string rest;
            for (int i=m-1; i<n; i++) rest += (i > m-1 ? sep : "") + w[i];
            some.push_back(rest);
            is(r, some);
            break;
        }
        case 2: if (sep != " ") mc::prune(); v = ("  " + all + " \t").c_str(); if (n) is(v.split(), w); break;
        case 3: r = v.copy(); str(libube::toupper(v), up); str(libube::tolower(v), low); str(v, all); break;
        case 4: if (sep != " ") mc::prune(); r = (std::string(n, ' ') + "q r" + std::string(n, '\n')).c_str(); str(libube::strip(r), "q r"); break;
        case 5:
        {
            std::vector<std::string> e(n + 1);
            std::string s;
            for (int i=0; i<n; i++) s += sep;
            if (!n || sep == " ") mc::prune();
            r = var(s.c_str()).split(sep.c_str());
            is(r, e);
            break;
        }
        case 6: r = v.copy(); for (int i=0; i<n; i++) r.append(w[i].c_str()); { std::string s = all; for (auto& x : w) s += x; str(r, s); } break;
        }
        mc::state(what);
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::add("split", [=]{ splitSep(th ? 8 : 6); });
    mc::add("words", [=]{ splitSpace(th ? 7 : 6, std::string("aB \t\0", 5)); });
    mc::add("spaces", [=]{ splitSpace(th ? 5 : 4, "a \t\n\v\f\r"); });
    mc::add("join", joins);
    mc::add("case-strip", [=]{ one(text(th ? 6 : 5, std::string("aB \tz\0", 6))); });
    mc::add("bytes", allBytes);
    mc::add("arrays", arrays, mc::LEAK);
    mc::add("others", others, mc::LEAK);
    mc::add("insert", [=]{ inserts(th ? 4 : 3); });
    mc::add("histories", [=]{ histories(th ? 6 : 5); });
    mc::add("sizes", sizes);
    mc::bound("length", th ? 8 : 6);
    return mc::run(argc, argv, "C15", "model_checking");
}
