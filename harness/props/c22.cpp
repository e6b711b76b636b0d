// C22: XML files.
// modules: xml-lib
#include "ref.h"
#include <fstream>
#include <map>
#include <set>
#include <unistd.h>
#include <lube/module.h>
#include <lube/data.h>
using namespace libube;
using mc::quote;

namespace
{
    struct Node;
    struct Item { std::string text; std::shared_ptr<Node> node; };
    struct Node
    {
        std::string name;
        std::map<std::string, std::string> attr;
        std::vector<Item> items;
    };
    // Adjacent text is joined, line ends dropped
    void addText(Node& n, const std::string& s)
    {
        std::string t;
        for (char c : s) if (c != '\n') t += c;
        if (t.empty()) return;
        if (n.items.size() && !n.items.back().node) n.items.back().text += t;
        else n.items.push_back({t, nullptr});
    }
    std::string show(const Node& n)
    {
        std::string r = "<" + n.name;
        for (auto& a : n.attr) r += " " + a.first + "=" + quote(a.second);
        r += ">";
        for (auto& i : n.items) r += i.node ? show(*i.node) : quote(i.text);
        return r + "</>";
    }

    //
    // Reference parser
    //
    struct Bad {};
    struct Unknown {};
    struct Parser
    {
        std::string s;
        size_t p = 0;
        bool odd = false;        // has things that need not be supported
        bool at(const char* t) { return s.compare(p, strlen(t), t) == 0; }
        bool eat(const char* t) { if (!at(t)) return false; p += strlen(t); return true; }
        char cur() { return p < s.size() ? s[p] : 0; }
        static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
        bool space() { bool r = false; while (p < s.size() && ws(s[p])) { p++; r = true; } return r; }
        static bool start(char c) { return isalpha((unsigned char)c) || c == '_' || c == ':' || (unsigned char)c >= 0x80; }
        std::string name()
        {
            if (p >= s.size() || !start(s[p])) throw Bad();
            std::string r;
            while (p < s.size() && (start(s[p]) || isdigit((unsigned char)s[p]) || s[p] == '-' || s[p] == '.')) r += s[p++];
            return r;
        }
        static void charOk(char c)
        {
            unsigned char u = c;
            if (u < 0x20 && !ws(c)) throw Bad();
        }
        std::string entity()     // after the &
        {
            if (eat("#"))
            {
                int base = eat("x") ? 16 : 10;
                size_t b = p;
                while (isxdigit((unsigned char)cur()) && (base == 16 || isdigit((unsigned char)cur()))) p++;
                if (p == b || p - b > 8) throw Bad();
                long v = strtol(s.substr(b, p - b).c_str(), 0, base);
                if (!eat(";")) throw Bad();
                if (v == 9 || v == 10 || v == 13 || (v >= 0x20 && v < 0x80)) return std::string(1, (char)v);
                if (v < 0x20) throw Bad();
                throw Unknown();
            }
            std::string n = name();
            if (!eat(";")) throw Bad();
            static const std::map<std::string, std::string> e = {{"amp","&"},{"lt","<"},{"gt",">"},{"apos","'"},{"quot","\""}};
            auto it = e.find(n);
            if (it == e.end()) throw Bad();
            return it->second;
        }
        // Comments; returns whether there was one
        bool misc()
        {
            if (eat("<!--"))
            {
                size_t e = s.find("--", p);
                if (e == std::string::npos || s.compare(e, 3, "-->")) throw Bad();
                for (; p<e; p++) charOk(s[p]);
                p = e + 3;
                odd = true;
                return true;
            }
            if (at("<!") || at("<?"))
            {
                if (p + 2 >= s.size()) throw Bad();
                throw Unknown();
            }
            return false;
        }
        std::shared_ptr<Node> element()
        {
            if (!eat("<")) throw Bad();
            auto n = std::make_shared<Node>();
            n->name = name();
            for (;;)
            {
                bool sp = space();
                if (eat("/>")) return n;
                if (eat(">")) break;
                if (!sp) throw Bad();
                std::string k = name(), v;
                space();
                if (!eat("=")) throw Bad();
                space();
                char q = cur();
                if (q != '"' && q != '\'') throw Bad();
                p++;
                while (p < s.size() && s[p] != q)
                {
                    if (s[p] == '<') throw Bad();
                    charOk(s[p]);
                    if (eat("&")) { v += entity(); continue; }
                    if (eat("\r\n")) { v += ' '; continue; }
                    v += ws(s[p]) ? ' ' : s[p];
                    p++;
                }
                if (p >= s.size()) throw Bad();
                p++;
                if (n->attr.count(k)) throw Bad();
                n->attr[k] = v;
            }
            for (;;)
            {
                if (p >= s.size()) throw Bad();
                if (at("</"))
                {
                    p += 2;
                    if (name() != n->name) throw Bad();
                    space();
                    if (!eat(">")) throw Bad();
                    return n;
                }
                if (misc()) continue;
                if (s[p] == '<') { n->items.push_back({"", element()}); continue; }
                if (at("]]>")) throw Bad();
                charOk(s[p]);
                if (eat("&")) { addText(*n, entity()); continue; }
                if (eat("\r\n") || eat("\r")) continue;
                addText(*n, std::string(1, s[p++]));
            }
        }
        std::shared_ptr<Node> document()
        {
            if (eat("<?xml"))
            {
                // Only in the forms that the scenarios use
                static const char* decl[] = { " version=\"1.0\"?>", " version=\"1.0\" encoding=\"UTF-8\"?>" };
                bool ok = false;
                for (auto d : decl) if (!ok) ok = eat(d);
                if (!ok)
                {
                    if (s.find("?>", p) == std::string::npos) throw Bad();
                    throw Unknown();
                }
            }
            while (space() || misc()) ;
            auto n = element();
            while (space() || misc()) ;
            if (p < s.size()) throw Bad();
            return n;
        }
    };
    enum { BAD, TREE, ODD, UNKNOWN };
    int parse(const std::string& text, std::shared_ptr<Node>& n)
    {
        Parser p;
        p.s = text;
        try { n = p.document(); }
        catch (Bad&) { return BAD; }
        catch (Unknown&) { return UNKNOWN; }
        return p.odd ? ODD : TREE;
    }

    //
    // From and to var
    //
    bool isStr(const var& v) { return v.defined() && (long)v.type() == TYPE_ARRAY && (long)v.atype() == TYPE_CHAR; }
    std::shared_ptr<Node> node(const var& v)
    {
        MC_CHECK(v.defined() && (long)v.type() == TYPE_ARRAY && (long)v.atype() == TYPE_VAR && v.size() == 4, "element", "not an element: %s", ref::show(v).c_str());
        auto n = std::make_shared<Node>();
        var name = v.at(NAME), attr = v.at(ATTR), type = v.at(TYPE), data = v.at(DATA);
        MC_CHECK(isStr(name), "element", "name is %s", ref::show(name).c_str());
        n->name = ref::strOf(name);
        MC_CHECK(isStr(type) && ref::strOf(type) == "text", "element", "type is %s", ref::show(type).c_str());
        if (attr.defined())
        {
            MC_CHECK((long)attr.type() == TYPE_ARRAY && (long)attr.atype() == TYPE_PAIR, "element", "attributes are %s", ref::show(attr).c_str());
            for (int i=0; i<attr.size(); i++)
            {
                MC_CHECK(isStr(attr.key(i)) && isStr(attr.at(i)), "element", "attributes are %s", ref::show(attr).c_str());
                n->attr[ref::strOf(attr.key(i))] = ref::strOf(attr.at(i));
            }
        }
        if (data.defined())
        {
            MC_CHECK((long)data.type() == TYPE_ARRAY && (long)data.atype() == TYPE_VAR, "element", "data is %s", ref::show(data).c_str());
            for (int i=0; i<data.size(); i++)
                if (isStr(data.at(i))) addText(*n, ref::strOf(data.at(i)));
                else n->items.push_back({"", node(data.at(i))});
        }
        return n;
    }

    file& xml()
    {
        static filemodule* m = new filemodule("xml");
        static file& f = m->create();
        return f;
    }
    void spew(const std::string& f, const std::string& s)
    {
        std::ofstream os(f);
        os.write(s.data(), s.size());
    }
    std::string slurp(const std::string& f)
    {
        std::ifstream is(f);
        return std::string(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>());
    }

    // Read any text
    void readCheck(const std::string& text)
    {
        std::string f = mc::scratch() + "/r.xml";
        spew(f, text);
        std::shared_ptr<Node> want;
        int k = parse(text, want);
        MC_NOTE("%s", quote(text).c_str());
        var v;
        mc::step();
        bool t = ref::throws([&]{ v = xml().read(f.c_str()); });
        if (k == BAD)
            MC_CHECK(t, "malformed", "%s is accepted: %s", quote(text).c_str(), ref::show(v).c_str());
        if (k == TREE)
            MC_CHECK(!t, "rejected", "%s is not accepted", quote(text).c_str());
        if (t) { mc::state(k); return; }
        auto n = node(v);
        if (k == TREE || k == ODD)
            MC_CHECK(show(*n) == show(*want), "tree", "%s is read as %s", quote(text).c_str(), show(*n).c_str());
        mc::state(show(*n));
    }

    void tokens(int maxn)
    {
        static const char* t[] = {
            "<a>", "</a>", "<b x=\"1\">", "</b>", "<c/>", "t", "&lt;", "\n",
            "<?xml version=\"1.0\"?>", " ", "<d e='&amp;' f=\"'\ng\" />", "&", "<", "]]>", "<!-- c -->", "\r\n",
        };
        int n = mc::range(0, maxn);
        std::string s;
        for (int i=0; i<n; i++) s += mc::pick(t);
        readCheck(s);
    }
    // As above, within a root element
    void inner(int maxn)
    {
        static const char* t[] = {
            "<a>", "</a>", "<b x=\"\">", "</b>", "<c/>", "t u", "\n", "&quot;", "&#65;", "&bad;", "<a x='1' x='2'/>", ">",
        };
        int n = mc::range(0, maxn);
        std::string s = "<r>";
        for (int i=0; i<n; i++) s += mc::pick(t);
        readCheck(s + "</r>");
    }
    const char* const rich =
        "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<r id=\"x\" k='a b'>\n  text &amp; more<e/>\r\n<f g=\"&quot;\">\xc3\xa9</f>tail\n</r>\n";
    void damage()
    {
        std::string s = rich;
        int n = (int)s.size(), k = mc::choose(4), i = mc::choose(n);
        static const char subst[] = { '<', '>', '/', '"', '\'', '&', ';', '=', ' ', '\n', 'z', '!', '?', '\0', '-', ']' };
        switch (k)
        {
        case 0: s = s.substr(0, i + 1); break;
        case 1: s.erase(i, 1); break;
        case 2: s[i] = mc::pick(subst); break;
        case 3: s.insert(i, 1, mc::pick(subst)); break;
        }
        // The reference knows nothing of encodings
        size_t e = s.find('\xc3');
        if (e == std::string::npos ? s.find('\xa9') != std::string::npos : (e + 1 >= s.size() || s[e+1] != '\xa9')) mc::prune();
        readCheck(s);
    }
    // Long tokens are as good as short ones
    void sizes()
    {
        static const int len[] = { 1, 7, 8, 9, 63, 64, 1023, 1024, 1025, 4096, 70000 };
        int n = mc::pick(len), k = mc::choose(5);
        std::string x(n, 'x'), s;
        switch (k)
        {
        case 0: s = "<r>" + x + "</r>"; break;
        case 1: s = "<" + x + "/>"; break;
        case 2: s = "<r " + x + "=\"v\"/>"; break;
        case 3: s = "<r v=\"" + x + "\">\n</r>"; break;
        case 4: for (int i=0; i<n; i++) s += i % 100 ? "y" : "\n"; s = "<r>" + s + "<e/></r>"; break;
        }
        readCheck(s);
        std::shared_ptr<Node> want;
        parse(s, want);
        std::string f = mc::scratch() + "/r.xml", g = mc::scratch() + "/w.xml";
        var v = xml().read(f.c_str());
        xml().write(g.c_str(), v);
        MC_CHECK(show(*node(xml().read(g.c_str()))) == show(*want), "long", "%d characters are not read back", n);
    }

    //
    // Trees
    //
    struct Alphabet
    {
        std::vector<std::string> names, texts;
        std::vector<std::map<std::string, std::string>> attrs;
    };
    std::vector<Alphabet> alphabets()
    {
        std::vector<Alphabet> r(3);
        std::string special = "<&>\"'", ctl = "a\tb", nl = "l\nm", ut = "\xc3\xa9]]>";
        r[0].names = { "a", "n-1.x", "_:b", "\xc3\xa9" };
        r[0].texts = { "", "t", special, " lead and trail ", "&amp;", ut, ctl, "cr\rx", nl, "text", "1", "four", "\n" };
        r[0].attrs = { {}, {{"x", ""}}, {{"x", "v"}}, {{"x", special}, {"y", "&lt;"}}, {{"z", " s  p "}, {"b", ctl}},
                       {{"id", nl}}, {{"id", "cr\rx"}}, {{"x", ut}, {"xx", "1"}, {"y:z", "2"}} };
        r[1].names = { "a", "b" };
        r[1].texts = { "", "t", special, "u\nv" };
        r[1].attrs = { {}, {{"x", special}}, {{"x", "1"}, {"y", "a\tb"}} };
        r[2].names = { "a" };
        r[2].texts = { "", "t" };
        r[2].attrs = { {}, {{"x", "&"}} };
        return r;
    }
    void build(const Alphabet& a, int nodes, var& v, Node& n, bool root)
    {
        n.name = mc::pick(a.names);
        n.attr = mc::pick(a.attrs);
        v[DATA] = nil;
        v[NAME] = n.name.c_str();
        v[ATTR] = nil;
        v[TYPE] = "text";
        for (auto& x : n.attr) v[ATTR][x.first.c_str()] = x.second.c_str();
        int left = nodes - 1;
        for (;;)
        {
            std::string t = mc::pick(a.texts);
            if (t.size()) v[DATA].push(t.c_str());
            addText(n, t);
            if (!left) break;
            int c = mc::range(1, left);
            left -= c;
            var e;
            auto m = std::make_shared<Node>();
            build(a, c, e, *m, false);
            v[DATA].push(e);
            n.items.push_back({"", m});
        }
    }
    void trees(int which, int n)
    {
        static const std::vector<Alphabet> as = alphabets();
        var v;
        Node want;
        build(as[which], n, v, want, true);
        std::string before = ref::show(v), f = mc::scratch() + "/w.xml";
        MC_NOTE("%s", show(want).c_str());
        spew(f, "something that was there before and is very very very very very very long indeed, longer than it\n");
        mc::step(2);
        xml().write(f.c_str(), v);
        MC_CHECK(ref::show(v) == before, "source", "writing changes %s to %s", before.c_str(), ref::show(v).c_str());
        std::string text = slurp(f);
        std::shared_ptr<Node> g;
        int k = parse(text, g);
        MC_CHECK(k == TREE && show(*g) == show(want), "written", "%s is written as %s", show(want).c_str(), quote(text).c_str());
        var r = xml().read(f.c_str());
        MC_CHECK(show(*node(r)) == show(want), "roundtrip", "%s is read back as %s", show(want).c_str(), ref::show(r).c_str());
        // Reading again does not depend on what happens to the first one
        r[NAME] = "other";
        r[ATTR]["other"] = "1";
        r[DATA].push("more");
        var q = xml().read(f.c_str());
        MC_CHECK(show(*node(q)) == show(want), "reread", "%s is read again as %s", show(want).c_str(), ref::show(q).c_str());
        mc::state(show(want));
    }

    void failures()
    {
        int k = mc::choose(9);
        std::string d = mc::scratch(), good = d + "/good.xml";
        spew(good, "<a><b/></a>");
        spew(d + "/bad.xml", "<a><b></a>");
        var v = xml().read(good.c_str()), out;
        std::string before = ref::show(v);
        static const char* names[] = { "/absent.xml", "/bad.xml", "", "/absent/x.xml", "/full", "" };
        MC_NOTE("case %d", k);
        mc::step();
        bool t;
        switch (k)
        {
        case 0: case 1: case 2:      // reading nothing, nonsense, a directory
            t = ref::throws([&]{ out = xml().read((d + names[k]).c_str()); });
            MC_CHECK(!out.defined(), "failed", "failed read gives %s", ref::show(out).c_str());
            break;
        case 3: case 5:              // writing to nowhere, a directory
            t = ref::throws([&]{ xml().write((d + names[k]).c_str(), v); });
            break;
        case 4:                      // writing to a full device
            t = ref::throws([&]{ xml().write("/dev/full", v); });
            break;
        case 6: case 7: case 8:      // writing things that are not elements
        {
            var w;
            if (k == 7) w = "text";
            if (k == 8) w = ref::array(TYPE_FLOAT, {1, 2, 3, 4});
            t = ref::throws([&]{ xml().write((d + "/w.xml").c_str(), w); });
            break;
        }
        }
        MC_CHECK(t, "unreported", "failure %d is not reported", k);
        MC_CHECK(ref::show(v) == before, "source", "tree becomes %s", ref::show(v).c_str());
        // Everything still works
        var r = xml().read(good.c_str());
        MC_CHECK(ref::show(r) == before, "after", "then %s is read as %s", before.c_str(), ref::show(r).c_str());
        xml().write((d + "/w2.xml").c_str(), r);
        r = xml().read((d + "/w2.xml").c_str());
        MC_CHECK(ref::show(r) == before, "after", "then %s is read back as %s", before.c_str(), ref::show(r).c_str());
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    int n = th ? 6 : 5;
    mc::bound("tokens", n);
    mc::add("tokens", [n]{ tokens(n); });
    mc::add("inner", [n]{ inner(n); });
    mc::add("damage", damage, mc::LEAK);
    mc::add("sizes", sizes);
    mc::add("tree1", []{ trees(0, 1); });
    mc::add("tree2", []{ trees(1, 2); });
    mc::add("tree2r", []{ if (mc::thorough()) trees(0, 2); });
    mc::add("tree3", [th]{ trees(th ? 1 : 2, 3); });
    mc::add("tree4", []{ trees(2, 4); }, mc::LEAK);
    mc::add("failures", failures, mc::LEAK);
    return mc::run(argc, argv, "C22", "model_checking");
}
