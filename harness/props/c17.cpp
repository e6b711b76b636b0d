// C17: string length counts UTF-8 characters.
#include "ref.h"
using namespace libube;
using mc::quote;

namespace
{
    var make(const std::string& s, int how)
    {
        var v = "";
        switch (how)
        {
        case 0: v.append<char>(s.size(), s.data()); return v;
        case 1: for (char c : s) v.push(c); return v;
        case 2:
        {
            // A view of a longer string, of which the rest would continue it
            std::string l = "\xc3" + s + "\x80\x80\x80";
            v.append<char>(l.size(), l.data());
            return v.view({(int)s.size()}, 1);
        }
        case 3:
        {
            // An element of an array
            var a;
            a.resize(2);
            a[1] = make(s, 0);
            return a.at(1);
        }
        }
        abort();
    }

    // A decoder driven by the table of well formed sequences in the standard.
    // The number of characters, or -1 if it is not valid.
    int decode(const std::string& s)
    {
        struct Row { int lo, hi, lo2, hi2, n; };
        static const Row rows[] = {
            { 0x00, 0x7f, 0, 0, 1 }, { 0xc2, 0xdf, 0x80, 0xbf, 2 }, { 0xe0, 0xe0, 0xa0, 0xbf, 3 }, { 0xe1, 0xec, 0x80, 0xbf, 3 },
            { 0xed, 0xed, 0x80, 0x9f, 3 }, { 0xee, 0xef, 0x80, 0xbf, 3 }, { 0xf0, 0xf0, 0x90, 0xbf, 4 }, { 0xf1, 0xf3, 0x80, 0xbf, 4 },
            { 0xf4, 0xf4, 0x80, 0x8f, 4 } };
        int n = 0;
        for (size_t p=0; p<s.size(); n++)
        {
            unsigned char c = s[p];
            int len = 0, lo = 0x80, hi = 0xbf;
            for (auto& r : rows) if (c >= r.lo && c <= r.hi) { len = r.n; lo = r.lo2; hi = r.hi2; }
            if (!len) return -1;
            for (int i=1; i<len; i++)
            {
                if (p + i >= s.size()) return -1;
                unsigned char d = s[p + i];
                if (i == 1 ? d < lo || d > hi : d < 0x80 || d > 0xbf) return -1;
            }
            p += len;
        }
        return n;
    }

    void check(const std::string& s, int how)
    {
        if (how == 2 && s.empty()) return;
        int want = decode(s);
        MC_NOTE("length of %s, form %d", quote(s).c_str(), how);
        var v = make(s, how);
        ind l = 0;
        bool threw = ref::throws([&] { l = v.len(); });
        mc::step();
        if (want < 0)
            MC_CHECK(threw || !l, "invalid", "%s is given length %ld", quote(s).c_str(), (long)l);
        else
            MC_CHECK(!threw && l && (long)l == want, "length", "%s %s length %ld, should be %d", quote(s).c_str(),
                     threw ? "throws, not" : "is given", (long)l, want);
        MC_CHECK(ref::strOf(v) == s, "changed", "len() changed %s", quote(s).c_str());
        if (how == 0) mc::state(want);
    }

    std::string utf8(long u)
    {
        std::string r;
        if (u < 0x80) r += (char)u;
        else if (u < 0x800) { r += (char)(0xc0 + u / 64); r += (char)(0x80 + u % 64); }
        else if (u < 0x10000) { r += (char)(0xe0 + u / 4096); r += (char)(0x80 + u / 64 % 64); r += (char)(0x80 + u % 64); }
        else { r += (char)(0xf0 + u / 262144); r += (char)(0x80 + u / 4096 % 64); r += (char)(0x80 + u / 64 % 64); r += (char)(0x80 + u % 64); }
        return r;
    }

    void allPoints()
    {
        int hi = mc::choose(0x1100);
        for (int lo=0; lo<256; lo++) check(utf8(hi * 256 + lo), 0);
    }
    void characters(int maxn)
    {
        static const long u[] = { 0, 'a', 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff };
        int n = mc::range(0, maxn), how = mc::choose(4);
        std::string s;
        for (int i=0; i<n; i++) s += utf8(mc::pick(u));
        check(s, how);
    }
    // Truncated anywhere, and with a byte missing or inserted
    void damaged()
    {
        static const long u[] = { 'a', 0xe9, 0x20ac, 0x1f600 };
        std::string s;
        for (int i=0; i<3; i++) s += utf8(mc::pick(u));
        int op = mc::choose(3), how = mc::choose(3), at = mc::choose(s.size() + 1);
        if (op == 0) s.resize(at);
        else if (op == 1) s.erase(at, 1);
        else s.insert(at, mc::flip() ? "\x80" : "\xf0");
        check(s, how);
    }
    void bytes(int maxn)
    {
        static const unsigned char c[] = { 0, 'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf7, 0xf8, 0xfe, 0xff };
        int n = mc::range(1, maxn), how = n < 4 ? mc::choose(3) : 0;
        std::string s;
        for (int i=0; i<n; i++) s += (char)mc::pick(c);
        check(s, how);
    }
    void pairs()
    {
        int a = mc::choose(256), b = mc::choose(256), how = mc::choose(3);
        check({ (char)a, (char)b }, how);
    }
    // Longer strings, at every size around the growth of the storage
    void lengths()
    {
        int n = mc::range(0, 140), k = mc::choose(4), how = mc::choose(4);
        static const long u[] = { 'a', 0xe9, 0x20ac, 0x1f600 };
        std::string s;
        for (int i=0; i<n; i++) s += utf8(u[k]);
        check(s, how);
    }
    // For other arrays it is the size
    void others()
    {
        int t = mc::range(TYPE_INT, TYPE_CFLOAT), n = mc::range(0, 5);
        var v = ref::array(t, std::vector<ref::cd>(n, 1));
        if (mc::flip()) { v = var(); v.resize(n); }
        ind l = v.len();
        mc::step();
        MC_CHECK(l && (long)l == n, "size", "the length of %s is %ld", ref::show(v).c_str(), (long)l);
        var m;
        for (int i=0; i<n; i++) m[i * 3] = i;
        mc::state(n * 10 + t);
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::add("code-points", allPoints);
    mc::add("characters", [=]{ characters(th ? 5 : 4); });
    mc::add("damaged", damaged);
    mc::add("bytes", [=]{ bytes(th ? 5 : 4); });
    mc::add("byte-pairs", pairs);
    mc::add("lengths", lengths);
    mc::add("others", others, mc::LEAK);
    mc::bound("bytes", th ? 5 : 4);
    return mc::run(argc, argv, "C17", "model_checking");
}
