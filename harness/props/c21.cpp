// C21: command line option parsing.  Every command line of up to a few words
// from an alphabet that has every form of option is given to Option, by means
// of both its interfaces, and compared with a reference parser.
#include "ref.h"
#include <lube/config.h>
#include <map>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace libube;

namespace
{
    int gPipe = -1;
    typedef std::vector<std::string> Words;

    // Options 'a' and 'c' are flags; 'b' and 'd' have values.
    struct Parsed
    {
        bool bad = false;                                  // not well formed
        std::vector<std::pair<char, std::string>> opts;    // in order
        std::vector<int> ends;   // (not used by the loop: words consumed)
        Words args;
    };
    bool valued(char c) { return c == 'b' || c == 'd'; }
    bool known(char c) { return c == 'a' || c == 'c' || valued(c); }

    Parsed reference(const Words& w)
    {
        Parsed r;
        size_t i = 0;
        for (; i<w.size(); i++)
        {
            const std::string& s = w[i];
            if (s == "--") { i++; break; }
            if (s.size() < 2 || s[0] != '-') { r.args.push_back(s); continue; }
            for (size_t j=1; j<s.size(); j++)
            {
                if (!known(s[j])) { r.bad = true; r.opts.push_back({'?', ""}); continue; }
                if (!valued(s[j])) { r.opts.push_back({s[j], ""}); continue; }
                if (j + 1 < s.size()) r.opts.push_back({s[j], s.substr(j+1)});
                else if (i + 1 < w.size()) r.opts.push_back({s[j], w[++i]});
                else { r.bad = true; r.opts.push_back({'?', ""}); }
                break;
            }
        }
        for (; i<w.size(); i++) r.args.push_back(w[i]);
        return r;
    }

    // A command line in storage of its own, with nothing beyond it
    struct Argv
    {
        std::vector<std::vector<char>> s;
        std::vector<char*> p;
        Argv(const Words& w)
        {
            s.push_back({'p', 'r', 'o', 'g', 0});
            for (auto& x : w) { s.push_back(std::vector<char>(x.begin(), x.end())); s.back().push_back(0); }
            for (auto& x : s) p.push_back(x.data());
            p.push_back(nullptr);
        }
        int argc() { return (int)s.size(); }
        char** argv() { return p.data(); }
    };

    std::string text(const Words& w)
    {
        std::string r = "prog";
        for (auto& s : w) r += " " + mc::quote(s);
        return r;
    }

    // A command line that is not as declared: the loop gives '?' in place of
    // what is wrong with it; parse() gives the help text and ends the program.
    void onExit(int iStatus, void* p)
    {
        std::string s = ((std::ostringstream*)p)->str();
        s = "exit " + s;
        if (write(gPipe, s.data(), s.size())) {}
        _exit(0);
    }
    std::map<char, std::string> declare(Option& o, int set);
    std::string helpText(const Words& w, int set, int named)
    {
        int p[2];
        if (pipe(p)) abort();
        pid_t pid = fork();
        if (!pid)
        {
            close(p[0]);
            gPipe = p[1];
            int n = open("/dev/null", O_WRONLY);
            dup2(n, 2);
            static std::ostringstream os;
            std::cout.rdbuf(os.rdbuf());
            on_exit(onExit, &os);
            try
            {
                Option o = named ? Option("the name") : Option();
                declare(o, set);
                Argv a(w);
                o.parse(a.argc(), a.argv());
                if (write(gPipe, "returned", 8)) {}
            }
            catch (...) { if (write(gPipe, "threw", 5)) {} }
            _exit(0);
        }
        close(p[1]);
        std::string r;
        char b[4096];
        for (ssize_t n; (n = read(p[0], b, sizeof(b))) > 0; ) r.append(b, n);
        close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st)) r = "crashed";
        return r;
    }

    const char* const cWords[] = {
        "-a", "-b", "--", "x", "-bv", "-ca", "-ab", "-abc", "-d", "", "-", "-d-b"
    };
    Words words(int maxn)
    {
        int n = mc::range(0, maxn);
        Words w;
        for (int i=0; i<n; i++) w.push_back(mc::pick(cWords));
        return w;
    }

    // The two option sets have the same letters, but different defaults
    std::map<char, std::string> declare(Option& o, int set)
    {
        std::map<char, std::string> d;
        if (set == 0)
        {
            o("heading");
            o('a', "flag a");
            o('b', "value b", "bdef");
            o('c', "flag c");
            o('d', "value d", 4);
            d['b'] = "\"bdef\"";
            d['d'] = "int 4";
        }
        else
        {
            var s = "was";
            o('d', "value d", s);
            o('c', "flag c");
            o('b', "value b", "");
            o('a', "flag a");
            s = "is";
            d['b'] = "\"\"";
            d['d'] = "\"was\"";
        }
        for (auto& x : d)
            if (x.second[0] == '"') x.second = mc::quote(x.second.substr(1, x.second.size() - 2));
        d['a'] = d['c'] = "nil";
        return d;
    }

    void checkArgs(Option& o, const Parsed& p, const Words& w)
    {
        var a = o.args();
        Words g;
        for (int i=0; i<a.size(); i++)
        {
            var s = a.at(i);
            MC_CHECK(!s.defined() || (s.heap() && s.atype<char>()), "args", "%s: remaining argument %d is %s",
                     text(w).c_str(), i, ref::show(s).c_str());
            g.push_back(ref::strOf(s));
        }
        MC_CHECK(g == p.args, "args", "%s leaves arguments %s", text(w).c_str(), ref::show(a).c_str());
    }
    void checkParse(Option& o, std::map<char, std::string> d, const Words& w, const Parsed& p)
    {
        Argv a(w);
        mc::step();
        var r = o.parse(a.argc(), a.argv());
        for (auto& x : p.opts)
            d[x.first] = valued(x.first) ? mc::quote(x.second) : "true";
        for (auto& x : d)
            for (int k=0; k<2; k++)
            {
                var v = k ? o[x.first] : r[var(x.first)];
                std::string s = ref::show(v);
                // What sort of true is not specified
                if (x.second == "true") s = v.defined() && !v.heap() && ref::num(v).real() != 0 ? "true" : s;
                MC_CHECK(s == x.second, "option", "%s gives option %c as %s (%s), should be %s",
                         text(w).c_str(), x.first, s.c_str(), k ? "[]" : "returned", x.second.c_str());
            }
        MC_CHECK(r.size() == (int)d.size(), "extra", "%s gives options %s", text(w).c_str(), ref::show(r).c_str());
        checkArgs(o, p, w);
    }
    // Up to stop options, or all of them if negative
    void checkLoop(const Words& w, const Parsed& p, int stop)
    {
        Argv a(w);
        Option o(a.argc(), a.argv(), "ab:cd:");
        size_t i = 0;
        while ((stop < 0 || (int)i < stop) && o)
        {
            mc::step();
            MC_CHECK(i < p.opts.size() && o.get() == p.opts[i].first, "loop", "%s: option %d is '%c'", text(w).c_str(), (int)i, o.get());
            if (valued(p.opts[i].first))
            {
                var v = o.arg();
                MC_CHECK(ref::show(v) == mc::quote(p.opts[i].second), "loop", "%s: value %d is %s", text(w).c_str(), (int)i, ref::show(v).c_str());
            }
            else
                MC_CHECK(ref::throws([&]{ o.arg(); }), "loop", "%s: flag %d has an argument", text(w).c_str(), (int)i);
            i++;
        }
        if (stop >= 0 && stop < (int)p.opts.size()) return;
        if (stop >= 0 && o) mc::violate("loop", "%s: too many options", text(w).c_str());
        MC_CHECK(i == p.opts.size(), "loop", "%s: only %d options", text(w).c_str(), (int)i);
        checkArgs(o, p, w);
    }

    // Any command line, and then any other
    void twice(int n1, int n2)
    {
        Words w1 = words(n1);
        Parsed p1 = reference(w1);
        if (p1.bad) mc::prune();
        Words w2;
        if (n2) w2 = words(n2);
        else
        {
            static const Words fixed[] = { {}, { "x", "-da", "-a" } };
            w2 = mc::pick(fixed);
        }
        Parsed p2 = reference(w2);
        if (p2.bad) mc::prune();
        int how = mc::choose(5);
        MC_NOTE("%s, then %s, how %d", text(w1).c_str(), text(w2).c_str(), how);
        mc::state(text(w1));
        switch (how)
        {
        case 0:
        case 1:
        {
            Option o1("first");
            auto d1 = declare(o1, how);
            checkParse(o1, d1, w1, p1);
            Option o2("second");
            auto d2 = declare(o2, !how);
            checkParse(o2, d2, w2, p2);
            checkLoop(w2, p2, -1);
            break;
        }
        case 2:
        {
            // Both exist before either is used, and the other one is used first
            Option o1("first");
            auto d1 = declare(o1, 0);
            Option o2;
            auto d2 = declare(o2, 1);
            checkParse(o2, d2, w2, p2);
            checkParse(o1, d1, w1, p1);
            break;
        }
        case 3:
            checkLoop(w1, p1, -1);
            checkLoop(w2, p2, -1);
            break;
        case 4:
        {
            // The first one is abandoned part way
            checkLoop(w1, p1, p1.opts.size() ? 1 : 0);
            Option o2("second");
            auto d2 = declare(o2, 0);
            checkParse(o2, d2, w2, p2);
            break;
        }
        }
    }

    const char* const cBad[] = {
        "-a", "-b", "--", "x", "-z", "-az", "-za", "-bz", "-db", "-:", "-?", "-zb"
    };
    void bad(int nmax)
    {
        int n = mc::range(1, nmax);
        Words w;
        for (int i=0; i<n; i++) w.push_back(mc::pick(cBad));
        Parsed p = reference(w);
        if (!p.bad) mc::prune();
        MC_NOTE("%s", text(w).c_str());
        int how = mc::choose(4);
        if (how == 3)
        {
            // Quiet: what is said on stderr is getopt's affair
            opterr = 0;
            checkLoop(w, p, -1);
            opterr = 1;
            return;
        }
        int set = how & 1;
        std::string s = helpText(w, set, how < 2);
        mc::step();
        mc::state(s);
        MC_CHECK(s.substr(0, 5) == "exit ", "bad", "%s isn't refused: %s", text(w).c_str(), s.c_str());
        for (const char* t : { "the name", "prog", "flag a", "value b", "flag c", "value d", "-a", "-b", "-c", "-d" })
            MC_CHECK((t[0] == 't' && how >= 2) || s.find(t) != std::string::npos, "bad", "%s: no %s in %s",
                     text(w).c_str(), t, mc::quote(s).c_str());
    }

    // The help text mentions all there is, whatever has been parsed
    void help()
    {
        int set = mc::choose(2);
        Words w = words(2);
        if (reference(w).bad) mc::prune();
        Option o("the name");
        declare(o, set);
        Argv a(w);
        bool parsed = mc::flip();
        if (parsed) o.parse(a.argc(), a.argv());
        else if (w.size()) mc::prune();
        std::ostringstream os;
        std::streambuf* was = std::cout.rdbuf(os.rdbuf());
        o.usage();
        std::cout.rdbuf(was);
        mc::step();
        std::string s = os.str();
        MC_CHECK(!parsed || s.find("prog") != std::string::npos, "help", "no prog in %s", mc::quote(s).c_str());
        for (const char* p : { "the name", "flag a", "value b", "flag c", "value d", "-a", "-b", "-c", "-d" })
            MC_CHECK(s.find(p) != std::string::npos, "help", "no %s in %s", p, mc::quote(s).c_str());
        if (!set)
            for (const char* p : { "heading", "bdef", "4" })
                MC_CHECK(s.find(p) != std::string::npos, "help", "no %s in %s", p, mc::quote(s).c_str());
    }
}

int main(int argc, char** argv)
{
    int n = mc::thorough() ? 5 : 4;
    mc::bound("words", n);
    mc::add("one", [n]{ twice(n, 0); }, mc::LEAK);
    mc::add("two", []{ twice(mc::thorough() ? 3 : 2, mc::thorough() ? 3 : 2); }, mc::LEAK);
    mc::add("bad", []{ bad(mc::thorough() ? 4 : 3); });
    mc::add("help", help, mc::LEAK);
    return mc::run(argc, argv, "C21", "model_checking");
}
