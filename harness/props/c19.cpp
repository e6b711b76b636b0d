// C19: text files and line input.
// modules: txt-lib
#include "ref.h"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <lube/module.h>
using namespace libube;
using mc::quote;
typedef std::vector<std::string> Strs;

namespace
{
    std::string show(const Strs& s)
    {
        std::string r;
        for (auto& x : s) r += (r.size() ? ", " : "") + quote(x);
        return "[" + r + "]";
    }
    Strs lines(const std::string& s)
    {
        Strs r;
        for (size_t p=0, q; p < s.size(); p = q + 1)
        {
            q = std::min(s.find('\n', p), s.size());
            r.push_back(s.substr(p, q - p));
        }
        return r;
    }
    Strs strs(const var& v)
    {
        Strs r;
        if (!v.defined()) return r;
        MC_CHECK((long)v.type() == TYPE_ARRAY && (long)v.atype() == TYPE_VAR, "type", "not an array of strings: %s", ref::show(v).c_str());
        for (int i=0; i<v.size(); i++)
        {
            var e = v.at(i);
            MC_CHECK(e.defined() && (long)e.type() == TYPE_ARRAY && (long)e.atype() == TYPE_CHAR, "type", "not a string: %s", ref::show(e).c_str());
            r.push_back(ref::strOf(e));
            MC_CHECK(r.back() == std::string(e.str()) || r.back().find('\0') != std::string::npos, "terminated", "%s is not terminated", ref::show(e).c_str());
        }
        return r;
    }
    std::string text(int maxn, const char* alpha)
    {
        int n = mc::range(0, maxn), k = strlen(alpha);
        std::string s;
        for (int i=0; i<n; i++) s += alpha[mc::choose(k)];
        return s;
    }

    // Delivers the text in pieces, and may break instead of ending
    struct Chunks : std::streambuf
    {
        std::string s;
        std::vector<int> cut;            // ends of pieces
        size_t k = 0;
        bool breaks;
        int_type underflow() override
        {
            if (k == cut.size()) { if (breaks) throw std::ios_base::failure("broken"); return traits_type::eof(); }
            int b = k ? cut[k-1] : 0, e = cut[k];
            k++;
            setg(&s[b], &s[b], &s[e]);
            return traits_type::to_int_type(s[b]);
        }
    };
    var initial(int k)
    {
        var v;
        switch (k)
        {
        case 1: v = ""; break;
        case 2: v = "a longer string that was there before"; break;
        case 3: v = 42; break;
        case 4: v = ref::array(TYPE_FLOAT, {1, 2}); break;
        case 5: v["x"] = 1; break;
        }
        return v;
    }

    void getlines(int maxn)
    {
        std::string s = text(maxn, "a\n\r");
        Chunks c;
        c.s = s;
        c.breaks = s.size() && mc::flip();
        for (int i=1; i<=(int)s.size(); i++)
            if (i == (int)s.size() || mc::flip()) c.cut.push_back(i);
        std::istream is(&c);
        Strs want = lines(s), got;
        MC_NOTE("%s in %zu pieces%s", quote(s).c_str(), c.cut.size(), c.breaks ? ", then broken" : "");
        var v;
        while (true)
        {
            var& r = v.getline(is);
            mc::step();
            MC_CHECK(&r == &v, "result", "getline does not return its object");
            if (!v) break;
            got.push_back(ref::strOf(v));
            MC_CHECK(got.back() == v.str(), "terminated", "the line %s is not terminated", quote(got.back()).c_str());
            MC_CHECK(got.size() <= want.size(), "lines", "%s gives %s ..", quote(s).c_str(), show(got).c_str());
        }
        MC_CHECK(got == want, "lines", "%s gives %s", quote(s).c_str(), show(got).c_str());
        MC_CHECK(!v.getline(is), "again", "after the end there is %s", ref::show(v).c_str());
        mc::state(s);
    }

    // Whatever the variable held
    void targets()
    {
        std::string s = text(3, "a\n");
        int k = mc::choose(6), stream = mc::choose(2);
        Strs want = lines(s);
        std::stringstream ss(s);
        varstream vs(var(s.c_str()));
        std::istream& is = stream ? (std::istream&)vs : ss;
        MC_NOTE("%s into %s", quote(s).c_str(), ref::show(initial(k)).c_str());
        for (size_t i=0; i<=want.size(); i++)
        {
            var v = initial(k);
            v.getline(is);
            mc::step();
            if (i < want.size())
                MC_CHECK(ref::show(v) == quote(want[i]), "target", "%s: line %zu is %s", quote(s).c_str(), i, ref::show(v).c_str());
            else
                MC_CHECK(!v.defined(), "target", "%s: at the end there is %s", quote(s).c_str(), ref::show(v).c_str());
        }
        // A stream that has failed gives nothing
        is.clear(std::ios::failbit);
        var v = initial(k);
        MC_CHECK(!v.getline(is), "failed", "a failed stream gives %s", ref::show(v).c_str());
        mc::state(s + char('0' + k));
    }

    // Lines of every length, in succession
    void lengths()
    {
        int n = mc::range(0, 300);
        static const int next[] = { 0, 1, 62, 63, 64, 127, 128, 255 };
        int m = mc::pick(next);
        std::string a, b;
        for (int i=0; i<n; i++) a += (char)(i % 255 == 9 ? 1 : i % 255 + 1);
        for (int i=0; i<m; i++) b += 'b';
        std::istringstream is(a + "\n" + b + "\n" + a);
        MC_NOTE("lines of %d, %d and %d", n, m, n);
        var v;
        for (int i=0; i<(n ? 3 : 2); i++)
        {
            v.getline(is);
            mc::step();
            MC_CHECK(v && ref::strOf(v) == (i == 1 ? b : a), "length", "line %d of %d, %d, %d is %s", i, n, m, n, ref::show(v).c_str());
        }
        MC_CHECK(!v.getline(is), "length", "there is another line");
        mc::state(n * 1000 + m);
    }

    // Files

    file& txt()
    {
        static filemodule m("txt");
        static file& f = m.create();
        return f;
    }
    std::string slurp(const std::string& f)
    {
        std::ifstream i(f);
        std::stringstream s;
        s << i.rdbuf();
        return s.str();
    }

    void readFile(int maxn)
    {
        std::string s = text(maxn, "a\n\r"), f = mc::scratch() + "/t.txt";
        { std::ofstream o(f); o << s; }
        MC_NOTE("a file of %s", quote(s).c_str());
        var v = txt().read(f.c_str());
        mc::step();
        Strs g = strs(v);
        MC_CHECK(g == lines(s), "read", "a file of %s reads as %s", quote(s).c_str(), show(g).c_str());
        MC_CHECK(slurp(f) == s, "untouched", "reading changed the file");
        mc::state(s);
    }
    void writeFile()
    {
        static const std::string part[] = { "", "a", "b c", " \t", "a\r", "\xc3\xa9", "quote\"\\", std::string("zero\0byte", 9) };
        int n = mc::range(0, 3);
        var v;
        v.resize(0);
        Strs was;
        std::string want;
        bool old = mc::flip();
        for (int i=0; i<n; i++)
        {
            was.push_back(mc::pick(part));
            v.push(var((int)was.back().size(), was.back().data()));
            want += was.back() + "\n";
        }
        std::string f = mc::scratch() + "/w.txt";
        unlink(f.c_str());
        if (old) { std::ofstream o(f); o << "something that was there before\nand more\n"; }
        MC_NOTE("write %s", show(was).c_str());
        txt().write(f.c_str(), v);
        mc::step();
        std::string got = slurp(f);
        MC_CHECK(got == want, "write", "%s is written as %s", show(was).c_str(), quote(got).c_str());
        MC_CHECK(strs(v) == was, "source", "writing changed %s to %s", show(was).c_str(), ref::show(v).c_str());
        Strs g = strs(txt().read(f.c_str()));
        MC_CHECK(g == was, "roundtrip", "%s is read back as %s", show(was).c_str(), show(g).c_str());
        mc::state(want);
    }

    // Nothing that could not be done goes unnoticed
    void failures()
    {
        int k = mc::choose(8);
        std::string d = mc::scratch(), f;
        var v;
        v.resize(2);
        v[0] = "first";
        v[1] = "second";
        int lines = 1 + mc::choose(3) * 2000;
        if (k == 4 || k == 5) { v = var(); v.resize(lines); for (int i=0; i<lines; i++) v[i] = "a line of text"; }
        bool write = false;
        switch (k)
        {
        case 0: f = d + "/absent.txt"; break;
        case 1: f = d + "/absent/file.txt"; break;
        case 2: f = d; break;                              // A directory
        case 3: f = ""; break;
        case 4: case 5: f = "/dev/full"; write = true; break;
        case 6: f = d + "/absent/file.txt"; write = true; break;
        case 7: f = d; write = true; break;
        }
        MC_NOTE("%s %s", write ? "write" : "read", f.c_str());
        bool threw = ref::throws([&] { if (write) txt().write(f.c_str(), v); else var r = txt().read(f.c_str()); });
        mc::step();
        MC_CHECK(threw, "failure", "%s %s does not throw", write ? "writing" : "reading", k == 2 || k == 7 ? "a directory" : f.c_str());
        // ..and does not affect what comes next
        f = d + "/next.txt";
        var w;
        w.resize(1);
        w[0] = "next";
        txt().write(f.c_str(), w);
        MC_CHECK(strs(txt().read(f.c_str())) == Strs{ "next" }, "after", "files no longer work");
        mc::state(k);
    }
    // Other values are written as they print
    void values()
    {
        int k = mc::choose(6);
        var v;
        v.resize(2);
        v[0] = "a";
        switch (k)
        {
        case 0: v[1] = 1; break;
        case 1: v[1] = 2.5; break;
        case 2: v[1] = ref::array(TYPE_LONG, {1, 2}); break;
        case 3: v[1] = nil; break;
        case 4: v = ref::array(TYPE_LONG, {3, 4}); break;
        case 5: v = "ab"; break;
        }
        std::string f = mc::scratch() + "/v.txt", want, before = ref::show(v);
        if (k != 5)
            for (int i=0; i<v.size(); i++)
            { std::ostringstream s; s << v.at(i); want += (i || k == 4 ? s.str() : "a") + "\n"; }
        MC_NOTE("write %s", before.c_str());
        bool threw = ref::throws([&] { txt().write(f.c_str(), v); });
        mc::step();
        MC_CHECK(ref::show(v) == before, "source", "writing changed %s to %s", before.c_str(), ref::show(v).c_str());
        if (!threw && k != 5) MC_CHECK(slurp(f) == want, "values", "%s is written as %s", before.c_str(), quote(slurp(f)).c_str());
        mc::state(k);
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::add("getline", [=]{ getlines(th ? 8 : 6); });
    mc::add("targets", targets, mc::LEAK);
    mc::add("lengths", lengths);
    mc::add("read", [=]{ readFile(th ? 9 : 7); });
    mc::add("write", writeFile);
    mc::add("failures", failures, mc::LEAK);
    mc::add("values", values, mc::LEAK);
    mc::bound("text_length", th ? 9 : 7);
    return mc::run(argc, argv, "C19", "model_checking");
}
