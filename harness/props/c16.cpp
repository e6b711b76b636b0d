// C16: regular expression functors.
#include "ref.h"
#include "big.h"
#include <lube/string.h>
#include <lube/regex.h>
using namespace libube;
using mc::quote;
typedef std::vector<std::string> Strs;

namespace
{
    // An independent backtracking matcher with the usual (perl) preferences
    struct Node;
    typedef std::shared_ptr<Node> N;
    struct Node
    {
        enum Kind { CHAR, ANY, SET, CAT, ALT, REP, GROUP, BOL, EOL } kind;
        std::string set;
        bool neg = false, lazy = false;
        N a, b;
        int min = 0, max = 0, group = 0;
    };
    N mk(Node::Kind k, N a = N(), N b = N()) { N n(new Node); n->kind = k; n->a = a; n->b = b; return n; }

    struct Caps { std::vector<std::pair<int,int>> g; };
    typedef std::function<bool(int, Caps&)> K;
    struct Matcher
    {
        const std::string& s;
        bool run(const N& n, int p, Caps& c, const K& k)
        {
            if (!n) return k(p, c);
            switch (n->kind)
            {
            case Node::CHAR: return p < (int)s.size() && s[p] == n->set[0] && k(p + 1, c);
            case Node::ANY: return p < (int)s.size() && k(p + 1, c);
            case Node::SET: return p < (int)s.size() && (n->set.find(s[p]) != std::string::npos) != n->neg && k(p + 1, c);
            case Node::CAT: return run(n->a, p, c, [&](int q, Caps& d) { return run(n->b, q, d, k); });
            case Node::ALT:
            {
                Caps was = c;
                if (run(n->a, p, c, k)) return true;
                c = was;
                return run(n->b, p, c, k);
            }
            case Node::GROUP:
                return run(n->a, p, c, [&](int q, Caps& d) {
                    auto was = d.g[n->group];
                    d.g[n->group] = { p, q };
                    if (k(q, d)) return true;
                    d.g[n->group] = was;
                    return false;
                });
            case Node::REP: return rep(n, 0, p, c, k);
            case Node::BOL: return (p == 0 || s[p-1] == '\n') && k(p, c);
            case Node::EOL: return (p == (int)s.size() || s[p] == '\n') && k(p, c);
            }
            abort();
        }
        bool rep(const N& n, int count, int p, Caps& c, const K& k)
        {
            auto more = [&] {
                if (count >= n->max) return false;
                Caps was = c;
                if (run(n->a, p, c, [&](int q, Caps& d) { return q > p && rep(n, count + 1, q, d, k); })) return true;
                c = was;
                return false;
            };
            auto stop = [&] {
                if (count < n->min) return false;
                Caps was = c;
                if (k(p, c)) return true;
                c = was;
                return false;
            };
            return n->lazy ? stop() || more() : more() || stop();
        }
    };

    struct Expr { std::string re; N n; int groups; bool nullable; };

    // Find a match at or after from; whole: of all of the text; notNull: not an
    // empty one at from
    bool find(const Expr& e, const std::string& s, int from, bool whole, bool notNull, int& begin, int& end, Caps& c)
    {
        Matcher m{ s };
        for (int b=from; b<=(int)s.size(); b++)
        {
            c.g.assign(e.groups + 1, { -1, -1 });
            if (m.run(e.n, b, c, [&](int q, Caps& d) {
                    if (whole && q != (int)s.size()) return false;
                    if (notNull && b == from && q == b) return false;
                    end = q;
                    c = d;
                    return true;
                }))
            { begin = b; return true; }
            if (whole) return false;
        }
        return false;
    }

    // The expressions: every one of the grammar up to a size
    std::vector<Expr> gen(int maxTerms)
    {
        struct T { std::string re; N n; bool nullable; int groups; };
        auto chr = [](char c) { N n = mk(Node::CHAR); n->set = c; return n; };
        auto set = [](const char* s, bool neg) { N n = mk(Node::SET); n->set = s; n->neg = neg; return n; };
        auto renum = [](N n, int by) {
            std::function<N(N)> f = [&](N x) {
                if (!x) return x;
                N y(new Node(*x));
                if (y->kind == Node::GROUP) y->group += by;
                y->a = f(y->a);
                y->b = f(y->b);
                return y;
            };
            return f(n);
        };
        auto group = [&](const T& t) {
            T r = { "(" + t.re + ")", N(), t.nullable, t.groups + 1 };
            r.n = mk(Node::GROUP, renum(t.n, 1));
            r.n->group = 1;
            return r;
        };
        auto quant = [&](const T& t, const char* q, int lo, int hi, bool lazy = false) {
            T r = { t.re + q, mk(Node::REP, t.n), t.nullable || lo == 0, t.groups };
            r.n->min = lo;
            r.n->max = hi;
            r.n->lazy = lazy;
            return r;
        };
        auto cat = [&](const T& a, const T& b) { return T{ a.re + b.re, mk(Node::CAT, a.n, renum(b.n, a.groups)), a.nullable && b.nullable, a.groups + b.groups }; };
        auto alt = [&](const T& a, const T& b) { return T{ a.re + "|" + b.re, mk(Node::ALT, a.n, renum(b.n, a.groups)), a.nullable || b.nullable, a.groups + b.groups }; };
        std::vector<T> atoms = { { "a", chr('a'), false, 0 }, { "b", chr('b'), false, 0 }, { ".", mk(Node::ANY), false, 0 },
                                 { "[ab]", set("ab", false), false, 0 }, { "[^a]", set("a", true), false, 0 } };
        atoms.push_back(group(atoms[0]));
        atoms.push_back(group(alt(atoms[0], atoms[1])));
        atoms.push_back(group(cat(atoms[0], atoms[1])));
        atoms.push_back(group(cat(group(atoms[1]), quant(atoms[0], "*", 0, 99))));
        std::vector<T> terms = atoms;
        for (auto& a : atoms)
        {
            if (a.nullable) continue;
            terms.push_back(quant(a, "*", 0, 99));
            terms.push_back(quant(a, "+", 1, 99));
            terms.push_back(quant(a, "?", 0, 1));
            if (a.groups) continue;
            terms.push_back(quant(a, "*?", 0, 99, true));
            terms.push_back(quant(a, "{2}", 2, 2));
        }
        std::vector<T> all = terms;
        if (maxTerms > 1)
        {
            size_t n = terms.size();
            for (size_t i=0; i<n; i++)
                for (size_t j=0; j<n; j++)
                {
                    if (i % 3 && j % 2) continue;
                    all.push_back(cat(terms[i], terms[j]));
                    if (j % 4 == 0) all.push_back(alt(terms[i], terms[j]));
                }
        }
        // With anchors
        std::vector<T> anchored;
        for (size_t i=0; i<terms.size(); i+=2)
        {
            T bol = { "^", mk(Node::BOL), true, 0 }, eol = { "$", mk(Node::EOL), true, 0 };
            anchored.push_back(cat(bol, terms[i]));
            anchored.push_back(cat(terms[i], eol));
            anchored.push_back(cat(bol, cat(terms[i], eol)));
        }
        all.insert(all.end(), anchored.begin(), anchored.end());
        std::vector<Expr> r;
        for (auto& t : all) r.push_back({ t.re, t.n, t.groups, t.nullable });
        return r;
    }

    var str(const std::string& s) { return var((int)s.size(), s.data()); }
    std::string text(int maxn, const std::string& alpha)
    {
        int n = mc::range(0, maxn), k = alpha.size();
        std::string s;
        for (int i=0; i<n; i++) s += alpha[mc::choose(k)];
        return s;
    }
    std::string show(const Strs& s)
    {
        std::string r;
        for (auto& x : s) r += (r.size() ? ", " : "") + quote(x);
        return "[" + r + "]";
    }

    // What search or match should give
    std::string expect(const Expr& e, const std::string& s, bool whole)
    {
        int b, n;
        Caps c;
        if (!find(e, s, 0, whole, false, b, n, c)) return "nil";
        Strs r = { s.substr(b, n - b) };
        for (int i=1; i<=e.groups; i++)
            r.push_back(c.g[i].first < 0 ? "" : s.substr(c.g[i].first, c.g[i].second - c.g[i].first));
        return show(r);
    }
    std::string replaced(const Expr& e, const std::string& s, int fmt)
    {
        std::string r;
        int p = 0;
        bool last = false;          // the last match was empty
        for (;;)
        {
            int b, n;
            Caps c;
            if (!find(e, s, p, false, last, b, n, c)) return r + s.substr(p);
            r += s.substr(p, b - p);
            std::string m = s.substr(b, n - b), g;
            if (e.groups && c.g[1].first >= 0) g = s.substr(c.g[1].first, c.g[1].second - c.g[1].first);
            r += fmt == 0 ? "x" : fmt == 1 ? "" : fmt == 2 ? "<" + m + ">" : "(" + g + ")";
            last = b == n;
            p = n;
        }
    }
    const char* formats[] = { "x", "", "<$&>", "\\($1\\)" };

    const std::vector<Expr>& exprs()
    {
        static const std::vector<Expr> e = gen(mc::thorough() ? 2 : 2);
        return e;
    }

    // Those to try on texts with zero bytes
    const Expr& someExpr()
    {
        static const std::vector<Expr> some = [] {
            std::vector<Expr> r;
            for (auto& e : exprs()) if (e.re.size() < 5) r.push_back(e);
            return r;
        }();
        return mc::pick(some);
    }

    void searches(bool whole, int maxn, bool zeros = false)
    {
        const Expr& e = zeros ? someExpr() : mc::pick(exprs());
        std::string s = zeros ? text(maxn, std::string("a\0b", 3)) : text(maxn, "ab");
        std::string want = expect(e, s, whole);
        const char* name = whole ? "match" : "search";
        int form = mc::choose(4);
        MC_NOTE("%s of %s in %s, form %d", name, quote(e.re).c_str(), quote(s).c_str(), form);
        var re = e.re.c_str(), v = str(s), r;
        switch (form)
        {
        case 0: r = whole ? v.match(re) : v.search(re); break;
        case 1: if (whole) r = Match{re}(v); else r = Search{re}(v); break;
        case 2:
        {
            // Twice with one object, into something
            std::unique_ptr<StringFunctor> f(whole ? (StringFunctor*)new Match(re) : new Search(re));
            r = "something";
            (*f)(var("abba"), r);
            (*f)(v, r);
            break;
        }
        case 3:
        {
            // In place
            var w = v.copy();
            if (whole) Match{re}(w, w); else Search{re}(w, w);
            r = w;
            break;
        }
        }
        mc::step();
        std::string g = r.defined() ? ref::show(r) : "nil";
        MC_CHECK(g == want, name, "%s of %s in %s, form %d, gives %s, should be %s", name, quote(e.re).c_str(), quote(s).c_str(), form, g.c_str(), want.c_str());
        MC_CHECK(ref::show(v) == quote(s) && ref::show(re) == quote(e.re), "subject", "%s of %s in %s leaves %s", name, quote(e.re).c_str(), quote(s).c_str(), ref::show(v).c_str());
        mc::state(e.re + want);
    }

    void replaces(int maxn, bool zeros = false)
    {
        const Expr& e = zeros ? someExpr() : mc::pick(exprs());
        int fmt = mc::choose(4);
        if (fmt == 3 && !e.groups) return;
        std::string s = zeros ? text(maxn, std::string("a\0b", 3)) : text(maxn, "ab");
        std::string want = replaced(e, s, fmt);
        int form = mc::choose(3);
        MC_NOTE("replace %s by %s in %s, form %d", quote(e.re).c_str(), formats[fmt], quote(s).c_str(), form);
        var re = e.re.c_str(), f = formats[fmt], v = str(s), r, w = v;
        switch (form)
        {
        case 0: r = v.replace(re, f); break;
        case 1: r = Replace{re, f}(v); break;
        case 2:
        {
            Replace o(re, f);
            r = "something";
            o(var("ba"), r);
            o(v, r);
            break;
        }
        }
        mc::step();
        MC_CHECK(ref::show(r) == quote(want), "replace", "replace %s by %s in %s, form %d, gives %s, should be %s", quote(e.re).c_str(), formats[fmt],
                 quote(s).c_str(), form, ref::show(r).c_str(), quote(want).c_str());
        MC_CHECK(ref::show(v) == quote(form ? s : want), "subject", "replace %s in %s leaves %s", quote(e.re).c_str(), quote(s).c_str(), ref::show(v).c_str());
        MC_CHECK(ref::show(f) == quote(formats[fmt]), "format", "the replacement became %s", ref::show(f).c_str());
        mc::state(e.re + want);
    }

    // New lines and other characters
    void lines(int maxn)
    {
        static const std::vector<Expr> some = [] {
            std::vector<Expr> r;
            for (auto& e : exprs()) if (e.re.find_first_of("^$.") != std::string::npos && e.re.size() < 6 && !e.nullable) r.push_back(e);
            return r;
        }();
        const Expr& e = mc::pick(some);
        std::string s = text(maxn, std::string("ab\n\0", 4));
        bool whole = mc::flip();
        std::string want = expect(e, s, whole);
        MC_NOTE("%s in %s", quote(e.re).c_str(), quote(s).c_str());
        var v = str(s);
        var r = whole ? v.match(e.re.c_str()) : v.search(e.re.c_str());
        mc::step();
        std::string g = r.defined() ? ref::show(r) : "nil";
        MC_CHECK(g == want, "lines", "%s of %s in %s gives %s, should be %s", whole ? "match" : "search", quote(e.re).c_str(), quote(s).c_str(), g.c_str(), want.c_str());
        mc::state(e.re + want);
    }

    // Every string of an array
    void arrays()
    {
        const Expr& e = exprs()[mc::choose(60) * 5 % exprs().size()];
        int op = mc::choose(3), n = mc::range(0, 3), form = mc::choose(2);
        static const char* parts[] = { "ab", "", "bba", "aab" };
        var v;
        v.resize(0);
        Strs was;
        for (int i=0; i<n; i++) { was.push_back(mc::pick(parts)); v.push(was.back().c_str()); }
        std::string before = ref::show(v);
        MC_NOTE("%d of %s in %s, form %d", op, quote(e.re).c_str(), before.c_str(), form);
        var re = e.re.c_str(), r;
        bool inplace = false;
        if (op == 2) { if (form) { r = v.replace(re, "x"); inplace = true; } else r = Replace{re, "x"}(v); }
        else if (form == 0) r = op ? v.match(re) : v.search(re);
        else { r = v.copy(); if (op) Match{re}(v, r); else Search{re}(v, r); }
        mc::step();
        std::string want;
        for (auto& s : was) want += (want.size() ? ", " : "") + (op == 2 ? quote(replaced(e, s, 0)) : expect(e, s, op));
        want = "[" + want + "]";
        MC_CHECK(ref::show(r) == want, "array", "%s on %s gives %s, should be %s", quote(e.re).c_str(), before.c_str(), ref::show(r).c_str(), want.c_str());
        MC_CHECK(ref::show(v) == (inplace ? want : before), "subject", "%s on %s leaves %s", quote(e.re).c_str(), before.c_str(), ref::show(v).c_str());
        mc::state(e.re + want);
    }

    // Expressions that are not, or subjects that are not strings
    void invalid()
    {
        static const char* bad[] = { "(", ")", "(a", "[a", "*", "+a", "?b", "a{3,1}", "\\", "(?", "[z-a]", "[[:none:]]", "a)" };
        static const bool isBad[] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 };
        int i = mc::choose(13), op = mc::choose(6);
        var re = bad[i], v = "a)({2*";
        MC_NOTE("%s, %d", bad[i], op);
        std::string what;
        bool threw = false;
        try
        {
            switch (op)
            {
            case 0: v.search(re); break;
            case 1: v.match(re); break;
            case 2: v.replace(re, "x"); break;
            case 3: { Search s(re); break; }
            case 4: { Match s(re); break; }
            case 5: { Replace s(re, "x"); break; }
            }
        }
        catch (std::exception& e) { threw = true; }
        mc::step();
        MC_CHECK(threw, "invalid", "the expression %s does not throw", bad[i]);
        MC_CHECK(ref::show(v) == quote("a)({2*"), "subject", "the failure leaves %s", ref::show(v).c_str());
        // Other expressions still work
        MC_CHECK(ref::show(v.search("[(]")) == "[\"(\"]", "after", "search no longer works");
        mc::state(i * 10 + op);
    }
    void others()
    {
        int op = mc::choose(3), k = mc::choose(6);
        var v;
        switch (k)
        {
        case 0: break;
        case 1: v = 1; break;
        case 2: v = 2.5; break;
        case 3: v = ref::array(TYPE_INT, {1, 2}); break;
        case 4: v.resize(2); v[0] = 1; v[1] = "a"; break;
        case 5: v = var(ref::cd(1, 1)); break;
        }
        std::string before = ref::show(v);
        MC_NOTE("%d of %s", op, before.c_str());
        bool threw = ref::throws([&] { var r; if (op == 0) r = v.search("a"); else if (op == 1) r = v.match("a"); else r = Replace("a", "b")(v); });
        mc::step();
        MC_CHECK(ref::show(v) == before, "others", "%s becomes %s", before.c_str(), ref::show(v).c_str());
        MC_CHECK(threw || k == 0, "others", "%s is not refused", before.c_str());
        mc::state(before);
    }

    // Long strings
    void sizes()
    {
        static const std::vector<int> ns = ref::bigSizes(1025);
        int n = mc::pick(ns), f = mc::choose(6);
        std::string what = "operation " + std::to_string(f) + " of " + std::to_string(n);
        MC_NOTE("%s", what.c_str());
        std::string a(n, 'a'), words, nums;
        for (int i=0; i<n; i++) { words += std::string(i ? " " : "") + "w" + std::to_string(i % 10); nums += std::string(i ? " " : "") + "<" + std::to_string(i % 10) + ">"; }
        var r;
        mc::step(n);
        auto is = [&](const var& r, std::vector<std::string> w) {
            MC_CHECK(r.defined() && (int)r.size() == (int)w.size() && ref::differs(r, w) < 0, "long", "%s gives %.200s", what.c_str(), ref::show(r).c_str());
        };
        switch (f)
        {
        case 0: is(var((a + "bc").c_str()).search("b(c)"), { "bc", "c" }); break;
        case 1: is(var(("x" + a + "b").c_str()).search("x(a*)b"), { "x" + a + "b", a }); break;
        case 2: is(var((a + "b").c_str()).match("(a*)b"), { a + "b", a }); MC_CHECK(!var((a + "bc").c_str()).match("(a*)b").defined(), "long", "%s matches", what.c_str()); break;
        case 3: MC_CHECK(ref::strOf(var(words.c_str()).replace("w(\\d)", "<$1>")) == nums, "long", "%s gives another string", what.c_str()); break;
        case 4: MC_CHECK(ref::strOf(var(words.c_str()).replace("[w ]", "")) == [&]{ std::string s; for (int i=0; i<n; i++) s += std::to_string(i % 10); return s; }(), "long", "%s gives another string", what.c_str()); break;
        case 5: MC_CHECK(!var(a.c_str()).search("b").defined() && ref::strOf(var(a.c_str()).replace("b", "c")) == a, "long", "%s finds something", what.c_str()); break;
        }
        mc::state(what);
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::add("search", [=]{ searches(false, th ? 6 : 4); });
    mc::add("match", [=]{ searches(true, th ? 6 : 4); });
    mc::add("replace", [=]{ replaces(th ? 6 : 4); });
    mc::add("zeros", [=]{ int k = mc::choose(3); if (k < 2) searches(k, th ? 5 : 3, true); else replaces(th ? 5 : 3, true); });
    mc::add("lines", [=]{ lines(th ? 6 : 4); });
    mc::add("arrays", arrays, mc::LEAK);
    mc::add("invalid", invalid, mc::LEAK);
    mc::add("others", others, mc::LEAK);
    mc::add("sizes", sizes);
    mc::bound("text_length", th ? 6 : 4);
    mc::bound("expressions", exprs().size());
    return mc::run(argc, argv, "C16", "model_checking", {"boost::regex matches as its reference here does"});
}
