// C18: string streams behave as a byte stream over the variable.
#include "ref.h"
#include <iomanip>
using namespace libube;
using mc::quote;

namespace
{
    // The reference: a byte vector that is written at the end and read at a
    // position, under the standard library's stream
    struct Buf : std::streambuf
    {
        std::string s;
        size_t p = 0;
        bool refused = false;          // asked to put back another character
        int overflow(int c) override { if (c != EOF) s += (char)c; return c == EOF ? 0 : c; }
        int underflow() override { return p < s.size() ? (unsigned char)s[p] : EOF; }
        int uflow() override { return p < s.size() ? (unsigned char)s[p++] : EOF; }
        int pbackfail(int c) override
        {
            if (!p) return EOF;
            if (c != EOF && (unsigned char)s[p-1] != c) { refused = true; return EOF; }
            return (unsigned char)s[--p];
        }
        std::streampos seekpos(std::streampos q, std::ios_base::openmode) override
        {
            if (q < 0 || q > (std::streamoff)s.size()) return std::streamoff(-1);
            p = q;
            return q;
        }
    };

    // One operation on a stream, and what it gave
    std::string apply(std::iostream& s, int op, const std::string& content, size_t pos)
    {
        std::ostringstream r;
        char b[8] = "";
        int n = content.size();
        switch (op)
        {
        case 0: s.put('x'); break;
        case 1: s.put('\xff'); break;
        case 2: s.write("a\0\n", 3); break;
        case 3: s << 12 << ' '; break;
        case 4: { int c = s.get(); r << c; break; }
        case 5: { int c = s.peek(); r << c; break; }
        case 6: s.unget(); break;
        case 7: s.putback(pos > 0 && pos <= content.size() ? content[pos-1] : 'q'); break;
        case 8: s.read(b, 2); r << quote(std::string(b, s.gcount())); break;
        case 9: { std::string l; std::getline(s, l); r << quote(l); break; }
        case 10: { int i = -7; s >> i; r << i; break; }
        case 11: s.seekg(0); break;
        case 12: s.clear(); break;
        // The rest are less usual
        case 13: { std::string l; s >> l; r << quote(l); break; }
        case 14: s.seekg(n); break;
        case 15: s.seekg(n + 1); break;
        case 16: s.seekg(n / 2); break;
        case 17: s << 0.5; break;
        case 18: s << std::setw(4) << std::hex << 255 << std::dec; break;
        case 19: s.ignore(1); break;
        case 20: { char c = 0; s >> c; r << (int)c; break; }
        case 21: s.ignore(10, '\n'); break;
        case 22: { s.getline(b, 3); r << quote(b); break; }
        case 23: s >> std::ws; break;
        case 24: { int k = s.readsome(b, 2); r << quote(std::string(b, k)); break; }
        case 25: s.flush(); r << s.sync(); break;
        case 26: { Buf o; s >> &o; r << quote(o.s); break; }
        case 27: s << std::endl; break;
        }
        r << " gcount " << s.gcount() << " state " << s.rdstate();
        return r.str();
    }

    const char* opName[] = { "put x", "put 0xff", "write 3", "<< 12 ' '", "get", "peek", "unget", "putback", "read 2", "getline", ">> int", "seekg 0", "clear",
        ">> string", "seekg end", "seekg past the end", "seekg middle", "<< 0.5", "<< hex", "ignore", ">> char", "ignore line", "getline 3", ">> ws", "readsome", "flush", ">> buffer", "<< endl" };

    void histories(int depth, int ops)
    {
        static const char* init[] = { 0, "", "1 a", "\xffz\n" };
        const char* i = init[mc::choose(4)];
        var x;
        if (i) x = i;
        varstream s(x);
        Buf b;
        if (i) b.s = i;
        std::iostream m(&b);
        MC_NOTE("varstream(%s)", i ? quote(i).c_str() : "");
        for (int k=0; k<depth; k++)
        {
            int op = mc::choose(ops);
            MC_NOTE("%s", opName[op]);
            std::string before = b.s;
            size_t pos = b.p;
            std::string want = apply(m, op, before, pos), got = apply(s, op, before, pos);
            mc::step();
            MC_CHECK(got == want, "result", "%s gives %s, should be %s", opName[op], got.c_str(), want.c_str());
            var v = s;
            std::string c = ref::strOf(v);
            MC_CHECK(c == b.s, "content", "after %s the string is %s, should be %s", opName[op], quote(c).c_str(), quote(b.s).c_str());
            MC_CHECK(std::string(s.str()) == b.s.c_str(), "str", "after %s str() is %s, should be %s", opName[op], quote(s.str()).c_str(), quote(b.s).c_str());
            if (i)
                MC_CHECK(ref::strOf(x) == b.s, "variable", "after %s the variable is %s, should be %s", opName[op], ref::show(x).c_str(), quote(b.s).c_str());
            mc::state(b.s + char(b.p) + char(m.rdstate()));
        }
    }

    // A character that is not the last one read can't be put back unnoticed
    void putback()
    {
        int n = mc::range(0, 3), read = mc::choose(n + 1);
        std::string t = std::string("abc").substr(0, n);
        char c = "abcx\xff"[mc::choose(5)];
        varstream s(var(t.c_str()));
        for (int i=0; i<read; i++) s.get();
        MC_NOTE("put '%c' back after reading %d of %s", c, read, t.c_str());
        s.putback(c);
        mc::step();
        bool good = s.good();
        if (read && t[read-1] == c) MC_CHECK(good, "putback", "cannot put back");
        if (!read) MC_CHECK(!good, "putback", "putting back before the start works");
        s.clear();
        int g = s.get();
        int want = good ? (unsigned char)c : read < n ? t[read] : EOF;
        MC_CHECK(g == want, "putback", "put '%c' back after reading %d of %s (%s), then read %d", c, read, t.c_str(), good ? "good" : "fails", g);
        mc::state(read * 100 + n * 10 + (unsigned char)c);
    }

    // Every byte value, next to every other
    void bytes()
    {
        int a = mc::choose(256), how = mc::choose(3);
        for (int b=0; b<256; b++)
        {
            varstream s;
            MC_NOTE("bytes %d %d", a, b);
            char c[2] = { (char)a, (char)b };
            if (how == 0) { s.put(c[0]); s.put(c[1]); }
            else if (how == 1) s.write(c, 2);
            else s << c[0] << c[1];
            var v = s;
            MC_CHECK(v.size() == 2 && v.at(0).get<char>() == c[0] && v.at(1).get<char>() == c[1], "bytes", "%d, %d became %s", a, b, ref::show(v).c_str());
            int p = s.peek(), x = s.get(), y = s.get(), z = s.get();
            mc::step();
            MC_CHECK(p == a && x == a && y == b && z == EOF && s.eof(), "bytes", "%d, %d reads as %d (peek), %d, %d, %d", a, b, p, x, y, z);
            s.clear();
            s.seekg(1);
            char d = 0;
            s.read(&d, 1);
            MC_CHECK(s.good() && d == c[1], "bytes", "after a seek, %d reads as %d", b, d);
        }
        mc::state(a * 4 + how);
    }

    // Long content, around every size at which storage grows
    void lengths()
    {
        int n = mc::range(0, 260), how = mc::choose(3);
        varstream s;
        std::string want;
        for (int i=0; i<n; i++)
        {
            char c = 'a' + i % 23;
            want += c;
            if (how == 0) s.put(c);
            else if (how == 1) { s << c; if (i % 3 == 0) { int g = s.peek(); MC_CHECK(g == 'a', "lengths", "peek gives %d", g); } }
        }
        if (how == 2) s << want;
        mc::step();
        MC_CHECK(ref::strOf((var)s) == want && want == s.str(), "lengths", "%d characters written are %s", n, quote(s.str()).c_str());
        std::string got;
        for (int c; (c = s.get()) != EOF; ) got += (char)c;
        MC_CHECK(got == want, "lengths", "%d characters written read as %s", n, quote(got).c_str());
        mc::state(n * 4 + how);
    }

    // Numbers as the standard streams write and read them
    void formats()
    {
        static const double d[] = { 0, -1.5, 1e300, 1.0/3, 123456789 };
        static const long l[] = { 0, -1, 9223372036854775807L, 255 };
        int k = mc::choose(9), f = mc::choose(8), p = mc::choose(3) * 8, w = mc::choose(3) * 6;
        varstream s;
        std::stringstream m;
        auto put = [&](std::iostream& o) {
            if (f & 1) o << std::hex;
            if (f & 2) o << std::showpos << std::fixed;
            if (f & 4) o << std::left << std::setfill('*');
            if (p) o << std::setprecision(p);
            o << std::setw(w);
            if (k < 5) o << d[k]; else o << l[k-5];
            o << "|" << true << std::boolalpha << true << (void*)0 << 'c' << -3 << 4u << 5.5f;
        };
        put(s);
        put(m);
        mc::step();
        MC_CHECK(m.str() == s.str(), "format", "formatted as %s, should be %s", quote(s.str()).c_str(), quote(m.str()).c_str());
        mc::state(m.str());
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::add("histories", [=]{ histories(th ? 6 : 5, 13); });
    mc::add("all-operations", [=]{ histories(th ? 4 : 3, 28); }, mc::LEAK);
    mc::add("putback", putback);
    mc::add("bytes", bytes);
    mc::add("lengths", lengths);
    mc::add("formats", formats);
    mc::bound("depth", th ? 6 : 5);
    return mc::run(argc, argv, "C18", "model_checking");
}
