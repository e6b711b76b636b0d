// C24: directory listings.
// modules: path-lib
#include "ref.h"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
#include <lube/path.h>
using namespace libube;
using mc::quote;

namespace
{
    enum Kind { FILE_, DIR_, DANGLING, TOROOT, TODIR, TOFILE, SELF, NKIND };
    struct Ent
    {
        std::string name;
        Kind kind;
        int parent;          // -1 is the root
    };
    typedef std::vector<Ent> Tree;

    std::string describe(const Tree& t)
    {
        static const char* k[] = { "file", "dir", "dangling link", "link to root", "link to dir", "link to file", "link to itself" };
        std::string r;
        for (auto& e : t) r += quote(e.name) + " (" + k[e.kind] + " in " + std::to_string(e.parent) + ") ";
        return r;
    }
    std::string base() { return mc::scratch() + "/base"; }
    std::string rel(const Tree& t, int i)
    {
        return (t[i].parent < 0 ? "" : rel(t, t[i].parent) + "/") + t[i].name;
    }
    void wipe() { std::filesystem::remove_all(base()); }
    void touch(const std::string& f) { int fd = open(f.c_str(), O_CREAT | O_WRONLY, 0600); if (fd < 0) abort(); close(fd); }
    void create(const Tree& t)
    {
        wipe();
        std::string b = base();
        mkdir(b.c_str(), 0700);
        mkdir((b + "/root").c_str(), 0700);
        mkdir((b + "/other").c_str(), 0700);
        touch(b + "/other/o.p");
        symlink("root", (b + "/alias").c_str());
        for (size_t i=0; i<t.size(); i++)
        {
            std::string f = b + "/root/" + rel(t, i);
            int r = 0;
            switch (t[i].kind)
            {
            case FILE_: touch(f); break;
            case DIR_: r = mkdir(f.c_str(), 0700); break;
            case DANGLING: r = symlink("nowhere", f.c_str()); break;
            case TOROOT: r = symlink((b + "/root").c_str(), f.c_str()); break;
            case TODIR: r = symlink((b + "/other").c_str(), f.c_str()); break;
            case TOFILE: r = symlink((b + "/other/o.p").c_str(), f.c_str()); break;
            case SELF: r = symlink(t[i].name.c_str(), f.c_str()); break;
            default: abort();
            }
            if (r) { perror(f.c_str()); abort(); }
        }
    }
    // Everything there is, from the system
    void snapshot(const std::string& d, std::string& r)
    {
        DIR* p = opendir(d.c_str());
        if (!p) return;
        std::set<std::string> names;
        while (dirent* e = readdir(p))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.insert(e->d_name);
        closedir(p);
        for (auto& n : names)
        {
            struct stat s;
            lstat((d + "/" + n).c_str(), &s);
            r += n + " " + std::to_string(s.st_ino) + " " + std::to_string(s.st_mode) + " " + std::to_string(s.st_size) + "\n";
            if (S_ISDIR(s.st_mode)) snapshot(d + "/" + n, r);
        }
    }

    // parent, stem and extension
    std::string bitsOf(const std::string& path)
    {
        size_t s = path.rfind('/');
        std::string parent = s == std::string::npos ? "" : path.substr(0, s), name = s == std::string::npos ? path : path.substr(s + 1);
        size_t d = name.rfind('.');
        if (d == 0) d = std::string::npos;
        std::string stem = name.substr(0, d), ext = d == std::string::npos ? "" : name.substr(d);
        return "[" + quote(parent) + ", " + quote(stem) + ", " + quote(ext) + "]";
    }
    typedef std::map<std::string, std::string> Listing;
    std::string text(const Listing& l)
    {
        std::string r;
        for (auto& e : l) r += quote(e.first) + ": " + e.second + ", ";
        return r;
    }
    Listing listing(const var& v)
    {
        Listing l;
        if (!v.defined()) return l;
        MC_CHECK((long)v.type() == TYPE_ARRAY && (long)v.atype() == TYPE_PAIR, "type", "the result is %s", ref::show(v).c_str());
        for (int i=0; i<v.size(); i++)
        {
            std::string k = ref::strOf(v.key(i));
            MC_CHECK(!l.count(k), "twice", "%s is there twice", k.c_str());
            l[k] = ref::show(v.at(i));
        }
        return l;
    }
    // What tree() gives, as text; below lists the links to root on the way
    std::string treeOf(const Tree& t, int dir)
    {
        std::map<std::string, std::string> l;
        for (size_t i=0; i<t.size(); i++)
            if (t[i].parent == dir)
                l[t[i].name] = t[i].kind == DIR_ ? treeOf(t, i) : t[i].kind == TODIR ? "{\"o.p\": nil, }" : "nil";
        if (l.empty()) return "nil";
        std::string r = "{";
        for (auto& e : l) r += quote(e.first) + ": " + e.second + ", ";
        return r + "}";
    }
    std::string treeText(const var& v)
    {
        if (!v.defined()) return "nil";
        MC_CHECK((long)v.type() == TYPE_ARRAY && (long)v.atype() == TYPE_PAIR, "type", "tree is %s", ref::show(v).c_str());
        std::map<std::string, std::string> l;
        for (int i=0; i<v.size(); i++) l[ref::strOf(v.key(i))] = treeText(v.at(i));
        MC_CHECK((int)l.size() == v.size(), "twice", "tree is %s", ref::show(v).c_str());
        std::string r = "{";
        for (auto& e : l) r += quote(e.first) + ": " + e.second + ", ";
        return r + "}";
    }

    struct Cwd
    {
        std::string was;
        Cwd(const std::string& d) { char b[4096]; was = getcwd(b, sizeof b); if (chdir(d.c_str())) abort(); }
        ~Cwd() { if (chdir(was.c_str())) abort(); }
    };
    void check(const Tree& t, int form)
    {
        create(t);
        std::string before, after, b = base();
        snapshot(b, before);
        MC_NOTE("%s, form %d", describe(t).c_str(), form);
        // Different ways of saying the same thing
        std::string arg, prefix, cwd = b;
        switch (form)
        {
        case 0: arg = prefix = b + "/root"; break;
        case 1: arg = prefix = "root"; break;
        case 2: arg = prefix = b + "/alias"; break;
        case 3: cwd = b + "/root"; prefix = cwd; break;      // the default
        case 4: cwd = b + "/root"; arg = prefix = "."; break;
        case 5: arg = prefix = "../base/root"; break;
        }
        Listing dir, dirBits, rdir, rdirBits;
        for (size_t i=0; i<t.size(); i++)
        {
            std::string p = prefix + "/" + rel(t, i);
            rdir[p] = "nil";
            rdirBits[p] = bitsOf(p);
            if (t[i].parent >= 0) continue;
            dir[p] = "nil";
            dirBits[p] = bitsOf(p);
        }
        {
            // As the module keeps its instances, so use a few of them again
            std::unique_ptr<pathmodule> own;
            Cwd c(cwd);
            own.reset(new pathmodule);
            path& p = arg.empty() ? own->create() : own->create(arg.c_str());
            for (int k=0; k<2; k++)
            {
                mc::step(5);
                Listing g = listing(p.dir());
                MC_CHECK(g == dir, "dir", "dir of %s gives %s", describe(t).c_str(), text(g).c_str());
                g = listing(p.dir(true));
                MC_CHECK(g == dirBits, "dirbits", "dir(true) of %s gives %s", describe(t).c_str(), text(g).c_str());
                g = listing(p.rdir());
                MC_CHECK(g == rdir, "rdir", "rdir of %s gives %s", describe(t).c_str(), text(g).c_str());
                g = listing(p.rdir(true));
                MC_CHECK(g == rdirBits, "rdirbits", "rdir(true) of %s gives %s", describe(t).c_str(), text(g).c_str());
                std::string s = treeText(p.tree()), w = treeOf(t, -1);
                MC_CHECK(s == w, "tree", "tree of %s gives %s, should be %s", describe(t).c_str(), s.c_str(), w.c_str());
                mc::state(w);
            }
        }
        snapshot(b, after);
        MC_CHECK(before == after, "changed", "listing %s changes the file system from\n%sto\n%s", describe(t).c_str(), before.c_str(), after.c_str());
        wipe();
    }

    void trees(int n, int kinds, int names, int forms)
    {
        static const char* name[] = { "a", "b.c", ".h", "x y.tar.gz", "dot.", "\xc3\xa9\"'\\", "..z" };
        Tree t;
        for (int i=0; i<n; i++)
        {
            Ent e;
            std::vector<int> dirs = { -1 };
            for (int j=0; j<i; j++) if (t[j].kind == DIR_) dirs.push_back(j);
            e.parent = mc::pick(dirs);
            e.kind = (Kind)mc::choose(kinds);
            e.name = name[mc::choose(names)];
            for (auto& x : t) if (x.parent == e.parent && x.name == e.name) mc::prune();
            // In one order only, unless it is within the last one
            if (i && e.parent == t[i-1].parent && e.name < t[i-1].name) mc::prune();
            t.push_back(e);
        }
        check(t, forms > 1 ? mc::choose(forms) : 0);
    }
    // Deeply nested, or with many entries
    void sizes()
    {
        Tree t;
        int n = mc::choose(4), deep = mc::choose(2);
        static const int k[] = { 1, 9, 40, 130 };
        for (int i=0; i<k[n]; i++)
            t.push_back({ "e" + std::to_string(i), deep ? DIR_ : FILE_, deep ? i - 1 : -1 });
        check(t, 0);
    }

    void failures()
    {
        Tree t = { { "f.x", FILE_, -1 }, { "loop", SELF, -1 } };
        create(t);
        std::string b = base(), before, after;
        snapshot(b, before);
        static const char* bad[] = { "/absent", "/root/absent", "/root/f.x/below", "/root/loop", "/root/f.x" };
        int k = mc::choose(5), o = mc::choose(5);
        pathmodule own;
        path& p = own.create((b + bad[k]).c_str());
        var v;
        MC_NOTE("%s, %d", bad[k], o);
        mc::step();
        bool threw = ref::throws([&]{
            switch (o)
            {
            case 0: v = p.dir(); break;
            case 1: v = p.dir(true); break;
            case 2: v = p.rdir(); break;
            case 3: v = p.rdir(true); break;
            case 4: v = p.tree(); break;
            }
        });
        // A file is not a directory, but its own listing
        std::string f = b + "/root/f.x";
        if (k == 4 && (o == 2 || o == 3))
        {
            Listing want;
            want[f] = o == 2 ? "nil" : bitsOf(f);
            MC_CHECK(!threw && listing(v) == want, "file", "the listing of a file is %s", ref::show(v).c_str());
        }
        else
            MC_CHECK(threw, "unreported", "listing %s gives %s", bad[k], ref::show(v).c_str());
        snapshot(b, after);
        MC_CHECK(before == after, "changed", "listing %s changes the file system", bad[k]);
        wipe();
    }
    // A listing shows the directory as it is, not as it was
    void again()
    {
        Tree t = { { "d", DIR_, -1 }, { "f", FILE_, 0 } };
        create(t);
        std::string r = base() + "/root";
        pathmodule own;
        path& p = own.create(r.c_str());
        path& q = own.create((r + "/d").c_str());
        int n = mc::range(1, 3);
        std::set<std::string> in = { "f" };
        for (int i=0; i<n; i++)
        {
            static const char* names[] = { "f", "g", "h" };
            const char* x = mc::pick(names);
            std::string f = r + "/d/" + x;
            if (in.count(x)) { unlink(f.c_str()); in.erase(x); }
            else { touch(f); in.insert(x); }
            MC_NOTE("%s", x);
            int o = mc::choose(3);
            Listing l, w;
            if (o == 0) { l = listing(q.dir()); for (auto& s : in) w[r + "/d/" + s] = "nil"; }
            if (o == 1) { l = listing(p.rdir()); for (auto& s : in) w[r + "/d/" + s] = "nil"; w[r + "/d"] = "nil"; }
            if (o == 2) { std::string g = treeText(q.tree()), e; for (auto& s : in) e += quote(s) + ": nil, ";
                e = in.empty() ? "nil" : "{" + e + "}"; MC_CHECK(g == e, "stale", "tree gives %s", g.c_str()); }
            mc::step();
            MC_CHECK(l == w, "stale", "listing gives %s", text(l).c_str());
        }
        wipe();
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::bound("entries", th ? 5 : 4);
    mc::add("small", []{ trees(mc::range(0, 2), NKIND, 7, 6); });
    mc::add("three", [th]{ trees(3, NKIND, th ? 5 : 3, th ? 3 : 1); });
    mc::add("four", [th]{ trees(4, th ? (int)NKIND : 3, th ? 3 : 3, 1); });
    mc::add("five", [th]{ if (th) trees(5, 4, 2, 1); });
    mc::add("leaks", []{ trees(2, NKIND, 3, 2); }, mc::LEAK);
    mc::add("sizes", sizes);
    mc::add("failures", failures, mc::LEAK);
    mc::add("again", again);
    return mc::run(argc, argv, "C24", "model_checking");
}
