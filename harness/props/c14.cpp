// C14: the JSON reader.
#include "json.h"
#include <lube/var.h>
using namespace libube;

namespace
{
    // A stream buffer that delivers at most n characters at a time, and has
    // no put back area
    struct Chunks : std::streambuf
    {
        std::string s;
        size_t p = 0, n;
        char c[8];
        Chunks(const std::string& i, size_t in) : s(i), n(in) {}
        int_type underflow() override
        {
            size_t k = std::min(n, s.size() - p);
            if (!k) return traits_type::eof();
            memcpy(c, s.data() + p, k);
            p += k;
            setg(c, c, c + k);
            return traits_type::to_int_type(c[0]);
        }
    };

    void check(const std::string& text, int form)
    {
        MC_NOTE("%s, stream %d", mc::quote(text).c_str(), form);
        js::Tree want, got;
        size_t rest = 0;
        bool slack;
        js::Verdict verdict = js::read(text, want, rest, slack);
        var v = "old", src;
        std::string err, left;
        bool threw = false;
        auto doit = [&](std::istream& s) {
            try { s >> v; }
            catch (std::exception& e) { threw = true; err = e.what(); return; }
            s.clear();
            for (int c; (c = s.get()) != EOF; ) left += (char)c;
        };
        if (form == 0) { std::istringstream s(text); doit(s); }
        else if (form == 1)
        {
            src = "";
            for (char c : text) src.push(c);
            varstream s(src);
            doit(s);
        }
        else { Chunks b(text, form - 1); std::istream s(&b); doit(s); }
        mc::step();
        std::string q = mc::quote(text);
        if (threw)
        {
            MC_CHECK(verdict != js::GOOD, "refused", "%s is refused: %s", q.c_str(), err.c_str());
            MC_CHECK(ref::show(v) == "\"old\"", "touched", "%s throws but leaves %s", q.c_str(), ref::show(v).c_str());
        }
        else
        {
            MC_CHECK(verdict != js::BAD, "accepted", "%s is read as %s", q.c_str(), ref::show(v).c_str());
            MC_CHECK(slack || (js::tree(v, got) && js::equal(want, got)), "value", "%s is read as %s, should be %s",
                     q.c_str(), ref::show(v).c_str(), js::show(want).c_str());
            MC_CHECK(slack || left == text.substr(rest), "rest", "%s leaves %s unread", q.c_str(), mc::quote(left).c_str());
        }
        mc::state(verdict == js::BAD ? "-" : js::show(want));
    }

    void tokens(int maxn)
    {
        static const char* tok[] = { "{", "}", "[", "]", ",", ":", "\"a\"", "\"\\n\"", "1", "-2.5", "true", "null", " " };
        int n = mc::range(0, maxn);
        std::string s;
        for (int i=0; i<n; i++) s += mc::pick(tok);
        check(s, 0);
    }
    // What is in braces, further than tokens()
    void objects(int maxn)
    {
        static const char* tok[] = { "}", "[]", ",", ":", "\"a\"", "\"b\"", "1" };
        int n = mc::range(maxn - 1, maxn);
        std::string s = "{";
        for (int i=0; i<n; i++) s += mc::pick(tok);
        check(s, 0);
    }
    void chars(int maxn)
    {
        static const char c[] = { '{', '}', '[', ']', ',', ':', '"', '\\', '1', '0', '-', '.', 'e', 'u', ' ', 'n' };
        int n = mc::range(0, maxn), form = mc::choose(4);
        std::string s;
        for (int i=0; i<n; i++) s += mc::pick(c);
        check(s, form);
    }
    void bytes()
    {
        // Any two bytes, alone, in a string, or in an array
        int a = mc::choose(256), form = mc::choose(2), where = mc::choose(4), b = mc::choose(256);
        std::string s = { (char)a, (char)b };
        check(where == 0 ? s : where == 1 ? "\"" + s + "\"" : where == 2 ? "[1" + s + "2]" : "\"\\" + s + "\"", form);
    }
    void escapes()
    {
        static const char d[] = { '0', '8', '9', 'c', 'D', 'd', 'F', 'b', 'g', '"' };
        static const char* follow[] = { "", "\\udc00", "\\uDFFF", "\\ud800", "\\u0041", "x", "\\n", "\\u", "\\udc0", "\\" };
        std::string s = "\"\\u";
        for (int i=0; i<4; i++) s += mc::pick(d);
        s += mc::pick(follow);
        if (mc::flip()) s += "\"";
        check(s, 1);
    }
    void allUnicode()
    {
        // Every code point, as one escape or two
        int hi = mc::choose(0x1100);
        for (int lo=0; lo<256; lo++)
        {
            int u = hi * 256 + lo;
            char b[32];
            if (u < 0x10000) snprintf(b, sizeof b, "\"\\u%04x\"", u);
            else snprintf(b, sizeof b, "\"\\u%04X\\u%04x\"", 0xd800 + ((u - 0x10000) >> 10), 0xdc00 + (u & 0x3ff));
            check(b, 0);
        }
    }
    void numbers(int maxn)
    {
        static const char c[] = { '0', '1', '9', '-', '+', '.', 'e', 'E', 'x', 'i' };
        int n = mc::range(1, maxn), where = mc::choose(3);
        std::string s;
        for (int i=0; i<n; i++) s += mc::pick(c);
        check(where == 0 ? s : where == 1 ? "[" + s + "]" : "{\"k\":" + s + "}", 0);
    }
    void limits()
    {
        static const char* n[] = { "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
            "2147483648", "1e308", "1.7976931348623157e308", "1e309", "-1e309", "4.9e-324", "1e-400", "0.1", "123456789.123456789",
            "1e+5", "1E-05", "100000000000000000000000000000000000000000", "-0", "-0.0", "0e0", "true", "false", "null",
            "True", "nul", "nulls", "trues", "inf", "nan", "NaN", "Infinity", "-", "--1", "0x1F", "1e", "1e+", "1f", "1L", "1,", "\"" };
        static const char* ctx[][2] = { {"", ""}, {"[", "]"}, {"[1,", "]"}, {"[", ",2.5]"}, {"{\"a\":", "}"}, {" \n\t\r", " "}, {"[[", "],[null]]"}, {"{\"a\":[", "]}"} };
        int i = mc::choose(8), form = mc::choose(4);
        check(std::string(ctx[i][0]) + mc::pick(n) + ctx[i][1], form);
    }

    // White space anywhere between tokens makes no difference
    void space()
    {
        static const std::vector<std::vector<const char*>> docs = {
            { "{", "\"a\"", ":", "[", "1", ",", "2", "]", "}" },
            { "[", "{", "}", ",", "[", "]", ",", "\"x\"", "]" },
            { "{", "\"a\"", ":", "null", ",", "\"b\"", ":", "-1.5e3", "}" },
        };
        auto& d = mc::pick(docs);
        static const char* ws[] = { "", " ", "\n", "\t\r" };
        std::string s;
        bool two = false;
        int at = mc::choose(d.size()), at2 = mc::choose(d.size());
        const char* w = mc::pick(ws);
        const char* w2 = mc::pick(ws);
        for (int i=0; i<(int)d.size(); i++) { if (i == at) s += w; if (i == at2) s += w2; s += d[i]; }
        check(s, mc::choose(4));
    }

    // Several values from one stream
    void sequence()
    {
        static const char* docs[] = { "1", "\"a\"", "[1,2]", "{\"k\":\"v\"}", "null", "[]", "bad", "2.5" };
        int n = mc::range(1, 3), form = mc::choose(4);
        std::string s;
        std::vector<const char*> want;
        for (int i=0; i<n; i++) { want.push_back(mc::pick(docs)); s += want.back(); s += mc::choose(2) ? " " : "\n"; }
        MC_NOTE("%s", mc::quote(s).c_str());
        std::unique_ptr<std::streambuf> b;
        std::unique_ptr<std::istream> in;
        if (form == 1) in.reset(new varstream(var(s.c_str())));
        else if (form) { b.reset(new Chunks(s, form - 1)); in.reset(new std::istream(b.get())); }
        else in.reset(new std::istringstream(s));
        for (int i=0; i<n; i++)
        {
            var v = 5;
            bool threw = ref::throws([&] { *in >> v; });
            mc::step();
            bool bad = !strcmp(want[i], "bad");
            MC_CHECK(threw == bad, "sequence", "value %d of %s %s", i, mc::quote(s).c_str(), threw ? "throws" : "is accepted");
            js::Tree t, g;
            size_t r;
            bool k;
            if (bad) continue;
            js::read(want[i], t, r, k);
            MC_CHECK(js::tree(v, g) && js::equal(t, g), "sequence", "value %d of %s is %s", i, mc::quote(s).c_str(), ref::show(v).c_str());
        }
        mc::state(s);
    }
    // Long strings and deep nesting
    void deep()
    {
        int n = mc::pick(std::vector<int>{ 1, 63, 64, 65, 300 }), kind = mc::choose(4);
        std::string s;
        for (int i=0; i<n; i++) s += kind == 0 ? "[" : kind == 1 ? "{\"a\":" : kind == 2 ? "x" : "9";
        if (kind == 0) s += std::string(n, ']');
        else if (kind == 1) s += "1" + std::string(n, '}');
        else if (kind == 2) s = "\"" + s + "\"";
        if (mc::flip()) s.resize(s.size() - 1);
        if (s.empty()) return;
        check(s, mc::choose(4));
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::add("tokens", [=]{ tokens(th ? 6 : 5); });
    mc::add("objects", [=]{ objects(th ? 7 : 6); });
    mc::add("chars", [=]{ chars(th ? 5 : 4); });
    mc::add("bytes", bytes);
    mc::add("escapes", escapes);
    mc::add("unicode", allUnicode);
    mc::add("numbers", [=]{ numbers(th ? 6 : 5); });
    mc::add("limits", limits, mc::LEAK);
    mc::add("locale", []{ ref::Foreign f; if (mc::choose(2)) numbers(4); else limits(); });
    mc::add("space", space);
    mc::add("sequence", sequence, mc::LEAK);
    mc::add("deep", deep, mc::LEAK);
    mc::bound("tokens", th ? 6 : 5);
    return mc::run(argc, argv, "C14", "model_checking");
}
