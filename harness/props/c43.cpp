// C43: operations do not depend on the history of the process.
// modules: txt-lib ini-lib path-lib graph-lib xml-lib ged-lib snd-lib gnuplot-lib
#include "oom.h"
#include <map>
#include <set>
#include <sys/wait.h>
#include <unistd.h>

namespace
{
    std::vector<const Op*> ops;

    // Change a value in place, and all that it refers to
    void mangle(var v, int depth = 0)
    {
        if (!v.defined() || depth > 8) return;
        if ((long)v.type() != TYPE_ARRAY) { try { v = 99; } catch (libube::error&) { } return; }
        int t = (int)(long)v.atype(), n = v.size();
        for (int i=0; i<n; i++)
            if (t == TYPE_VAR || t == TYPE_PAIR)
            {
                var x = v.at(i);
                if (x.defined() && (long)x.type() == TYPE_ARRAY) mangle(x, depth + 1);
                else v.at(i) = 99;
            }
            else if (t == TYPE_CHAR) { if (!v.view()) v.at(i) = '#'; else v.at(i) = (char)1; }
            else v.at(i) = 99;
        if (v.view()) return;
        if (t == TYPE_PAIR) v["mangled"] = 1;
        else if (t == TYPE_CHAR) v.append("mangled");
        else if (t != TYPE_CDOUBLE) v.push(98);
    }

    // What operation i gives
    std::string result(int i)
    {
        Env e;
        std::string r;
        fresh(e, *ops[i]);
        gOutside = !strncmp(ops[i]->name, "path", 4);
        try { ops[i]->run(e); }
        catch (std::exception& x) { r = std::string("throws ") + x.what(); }
        for (auto& s : shows(e)) r += s + "\n";
        return r;
    }
    void before(int i, bool change)
    {
        Env e;
        fresh(e, *ops[i]);
        try { ops[i]->run(e); } catch (std::exception&) { }
        if (change) for (auto& v : e) { try { mangle(v); } catch (std::exception&) { } }
    }
    // The number of allocations, the first time
    void count(int i)
    {
        Env e;
        fresh(e, *ops[i]);
        gOutside = !strncmp(ops[i]->name, "path", 4);
        Armed a(-1, false);
        try { ops[i]->run(e); } catch (std::exception&) { }
    }
    void failing(int i, long at)
    {
        Env e;
        fresh(e, *ops[i]);
        gOutside = !strncmp(ops[i]->name, "path", 4);
        Armed a(at, false);
        try { ops[i]->run(e); } catch (std::exception&) { }
    }

    // In a process of its own
    std::string child(const std::function<std::string()>& f, const std::string& what)
    {
        int p[2];
        if (pipe(p)) mc::violate("pipe", "no pipe");
        pid_t pid = fork();
        if (!pid)
        {
            close(p[0]);
            std::string r;
            try { r = f() + "."; }
            catch (std::exception& x) { r = std::string("could not: ") + x.what() + "."; }
            gArmed = false;
            for (size_t i=0; i<r.size(); )
            {
                ssize_t n = write(p[1], r.data() + i, r.size() - i);
                if (n <= 0) break;
                i += n;
            }
            _exit(0);
        }
        close(p[1]);
        std::string r;
        char b[4096];
        for (ssize_t n; (n = read(p[0], b, sizeof(b))) > 0; ) r.append(b, n);
        close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        MC_CHECK(st == 0 && r.size() && r.back() == '.', "died", "%s: the program dies (status %d)", what.c_str(), st);
        return r;
    }
    const std::string& alone(int i)
    {
        static std::map<int, std::string> cache;
        auto c = cache.find(i);
        if (c == cache.end()) c = cache.emplace(i, child([=]{ return result(i); }, ops[i]->name)).first;
        return c->second;
    }
    long allocations(int i)
    {
        static std::map<int, long> cache;
        auto c = cache.find(i);
        if (c == cache.end()) c = cache.emplace(i, atol(child([=]{ count(i); return std::to_string(gCount); }, ops[i]->name).c_str())).first;
        return c->second;
    }
    void compare(int b, const std::string& r, const std::string& how)
    {
        mc::step();
        mc::state(r + how);
        const std::string& w = alone(b);
        MC_CHECK(r == w, std::string(ops[b]->name), "%s, %s then gives\n%s\nrather than\n%s", how.c_str(), ops[b]->name, r.c_str(), w.c_str());
    }

    // After another, whose values were changed in place
    void pairs(bool change, int from)
    {
        int a = mc::range(from, ops.size() - 1), b = mc::choose(ops.size());
        std::string how = std::string("after ") + ops[a]->name + (change ? ", and changing what it took and gave" : "");
        MC_NOTE("%s, %s", how.c_str(), ops[b]->name);
        compare(b, child([=]{ before(a, change); return result(b); }, how + ", " + ops[b]->name), how);
    }
    // After it failed for want of memory, the first time that it is used
    void first(bool other)
    {
        int a = mc::choose(ops.size());
        MC_NOTE("%s", ops[a]->name);
        long n = allocations(a);
        if (!n) mc::prune();
        long at = mc::choose(n);
        int b = other ? mc::choose(ops.size()) : a;
        std::string how = std::string(ops[a]->name) + " fails at allocation " + std::to_string(at) + " of " + std::to_string(n);
        MC_NOTE("%s, then %s", how.c_str(), ops[b]->name);
        compare(b, child([=]{ failing(a, at); return result(b); }, how), how);
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    for (auto* s : { &basic, &grow, &maps, &maths, &strings, &files })
        for (auto& o : *s) ops.push_back(&o);
    int nfile = files.size();
    mc::bound("operations", ops.size());
    mc::add("first", []{ first(false); });
    mc::add("files", [=]{ pairs(true, ops.size() - nfile); });
    mc::add("pairs", []{ pairs(true, 0); });
    if (th) mc::add("plain", []{ pairs(false, 0); });
    if (th) mc::add("failing", []{ first(true); });
    return mc::run(argc, argv, "C43", "model_checking");
}
