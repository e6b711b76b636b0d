// C41: when the system cuts reading or writing short.
// modules: txt-lib ini-lib xml-lib ged-lib snd-lib path-lib graph-lib gnuplot-lib
#include "arr.h"
#include <algorithm>
#include <cstdarg>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <lube/config.h>
#include <lube/graph.h>
#include <lube/module.h>
#include <lube/path.h>
using namespace libube;

// The system.  While gOn, every call is counted; those in the plan go wrong.
namespace
{
    enum Call { OPEN, READ, WRITE, SEEK, CLOSE, LIST, POPEN, PUTS, NCALL };
    const char* callName[] = { "open", "read", "write", "seek", "close", "list", "popen", "puts" };
    // The ways for it to go wrong
    enum How { FAIL, FAIL2, SHORT, INTR };
    struct Fault { int at, how; };
    bool gOn = false;
    std::vector<Call> gCalls;
    std::vector<Fault> gPlan;
    bool gHard;                   // Something really failed
    int gReached;
    bool gEnding;                 // In sf_close(), which ignores what else it does
    int gPipes = 0;               // Open to another program

    int hows(Call c)
    {
        switch (c)
        {
        case READ: case WRITE: return 4;
        case OPEN: return 2;
        default: return 1;
        }
    }
    // What happens to this call: -1 is nothing
    int fate(Call c)
    {
        if (!gOn || (gEnding && c != CLOSE)) return -1;
        int n = gCalls.size();
        gCalls.push_back(c);
        for (auto& f : gPlan)
            if (f.at == n)
            {
                gReached++;
                if (f.how >= hows(c)) return -1;
                if (f.how < SHORT) gHard = true;
                return f.how;
            }
        return -1;
    }
    template<class F> F* theReal(const char* n) { return (F*)dlsym(RTLD_NEXT, n); }
#define REAL(f) ([]{ static auto* p = theReal<decltype(f)>(#f); return p; }())
}

extern "C"
{
    int open(const char* n, int fl, ...)
    {
        va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a);
        int h = fate(OPEN);
        if (h >= 0) { errno = h == FAIL ? EACCES : EMFILE; return -1; }
        return REAL(open)(n, fl, m);
    }
    int openat(int d, const char* n, int fl, ...)
    {
        va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a);
        int h = fate(OPEN);
        if (h >= 0) { errno = h == FAIL ? EACCES : EMFILE; return -1; }
        return REAL(openat)(d, n, fl, m);
    }
    FILE* fopen(const char* n, const char* m)
    {
        int h = fate(OPEN);
        if (h >= 0) { errno = h == FAIL ? EACCES : EMFILE; return 0; }
        return REAL(fopen)(n, m);
    }
    FILE* fopen64(const char* n, const char* m)
    {
        int h = fate(OPEN);
        if (h >= 0) { errno = h == FAIL ? EACCES : EMFILE; return 0; }
        return REAL(fopen64)(n, m);
    }
    ssize_t read(int fd, void* b, size_t n)
    {
        int h = n ? fate(READ) : -1;
        if (h == FAIL || h == FAIL2) { errno = h == FAIL ? EIO : ENOMEM; return -1; }
        if (h == INTR) { errno = EINTR; return -1; }
        if (h == SHORT) n = std::max(n / 3, (size_t)1);
        return REAL(read)(fd, b, n);
    }
    ssize_t write(int fd, const void* b, size_t n)
    {
        int h = n ? fate(WRITE) : -1;
        if (h == FAIL || h == FAIL2) { errno = h == FAIL ? ENOSPC : EIO; return -1; }
        if (h == INTR) { errno = EINTR; return -1; }
        if (h == SHORT) n = std::max(n / 3, (size_t)1);
        return REAL(write)(fd, b, n);
    }
    ssize_t writev(int fd, const struct iovec* v, int n)
    {
        int h = fate(WRITE);
        if (h == FAIL || h == FAIL2) { errno = h == FAIL ? ENOSPC : EIO; return -1; }
        if (h == INTR) { errno = EINTR; return -1; }
        if (h == SHORT)
        {
            // Part of one of them
            for (int i=0; i<n; i++)
                if (v[i].iov_len)
                    return REAL(write)(fd, v[i].iov_base, std::max(v[i].iov_len / 3, (size_t)1));
        }
        return REAL(writev)(fd, v, n);
    }
    off_t lseek(int fd, off_t o, int w)
    {
        if (fate(SEEK) >= 0) { errno = EIO; return -1; }
        return REAL(lseek)(fd, o, w);
    }
    int fclose(FILE* f)
    {
        int h = fate(CLOSE), r = REAL(fclose)(f);
        if (h >= 0) { errno = EIO; return EOF; }
        return r;
    }
    int close(int fd)
    {
        int h = fate(CLOSE), r = REAL(close)(fd);
        if (h >= 0) { errno = EIO; return -1; }
        return r;
    }
    DIR* opendir(const char* n)
    {
        if (fate(OPEN) >= 0) { errno = EACCES; return 0; }
        return REAL(opendir)(n);
    }
    DIR* fdopendir(int fd)
    {
        if (fate(OPEN) >= 0) { errno = ENOMEM; return 0; }
        return REAL(fdopendir)(fd);
    }
    struct dirent* readdir(DIR* d)
    {
        if (fate(LIST) >= 0) { errno = EIO; return 0; }
        return REAL(readdir)(d);
    }
    int sf_close(void* s)
    {
        static auto* p = (int (*)(void*))dlsym(RTLD_DEFAULT, "sf_close");
        static auto* q = (int (*)(void*))dlsym(RTLD_NEXT, "sf_close");
        if (!q)
        {
            // It comes with the module
            void* h = dlopen("libsndfile.so.1", RTLD_NOW | RTLD_NOLOAD);
            if (h) q = (int (*)(void*))dlsym(h, "sf_close");
            if (!q || q == p) abort();
        }
        gEnding = true;
        int r = q(s);
        gEnding = false;
        return r;
    }
    // The other program is one that keeps what it's sent
    FILE* popen(const char*, const char*)
    {
        if (fate(POPEN) >= 0) { errno = EMFILE; return 0; }
        bool on = gOn;
        gOn = false;
        FILE* k = REAL(fopen)((mc::scratch() + "/plot").c_str(), "w");
        cookie_io_functions_t io = {};
        io.write = [](void* k, const char* b, size_t n) -> ssize_t {
            if (fate(PUTS) >= 0) { errno = EPIPE; return 0; }
            return fwrite(b, 1, n, (FILE*)k);
        };
        io.close = [](void* k) { return REAL(fclose)((FILE*)k); };
        FILE* f = fopencookie(k, "w", io);
        gOn = on;
        gPipes++;
        return f;
    }
    int pclose(FILE* f)
    {
        gPipes--;
        return REAL(fclose)(f);
    }
}

namespace
{
    struct On { On() { gOn = true; } ~On() { gOn = false; } };

    std::string slurp(const std::string& f)
    {
        std::ifstream s(f, std::ios::binary);
        if (s.fail()) return "(no file)";
        std::stringstream b;
        b << s.rdbuf();
        return b.str();
    }
    void spit(const std::string& f, const std::string& s) { std::ofstream(f, std::ios::binary | std::ios::trunc) << s; }

    std::string brief(const std::string& s)
    {
        if (s.size() < 300) return s;
        return s.substr(0, 100) + "... (" + std::to_string(s.size()) + ", hash " + std::to_string(mc::hash(s)) + ")";
    }

    // The files that are open
    std::string descriptors()
    {
        std::string r;
        DIR* d = REAL(opendir)("/proc/self/fd");
        if (!d) abort();
        std::vector<std::string> l;
        while (struct dirent* e = REAL(readdir)(d))
        {
            int fd = atoi(e->d_name);
            if (e->d_name[0] == '.' || fd == dirfd(d)) continue;
            char b[300];
            ssize_t n = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b - 1);
            l.push_back(std::string(e->d_name) + " " + std::string(b, std::max<ssize_t>(n, 0)));
        }
        closedir(d);
        std::sort(l.begin(), l.end());
        for (auto& x : l) r += x + "; ";
        return r;
    }

    file& get(const char* type)
    {
        static std::map<std::string, file*> all;
        var a;
        if (type == std::string("snd")) a["rate"] = 16000;
        if (!all[type]) all[type] = &(new filemodule(type))->create(a);
        return *all[type];
    }

    // Enough to need several buffers when big
    std::string line(int i) { return "line " + std::to_string(i) + " of several"; }
    int count(int size) { static const int n[] = { 0, 3, 500 }; return n[size]; }
    const char* NOTHING = "what was here before\n";

    // Something that reads or writes.  The result is what was read, or written
    struct Job
    {
        const char* name;
        bool writes;
        std::function<void(int)> prepare;
        std::function<std::string()> run;       // With the system on
        std::string file;
    };
    var gValue, gName;
    std::string gWas;

    var txtValue(int n) { var v; v.array(); v.resize(0); for (int i=0; i<n; i++) v.push(line(i).c_str()); return v; }
    var iniValue(int n)
    {
        var v, e;
        v["first"]["key"] = "value";
        for (int i=0; i<n; i++) v["section"][line(i).c_str()] = line(i+1).c_str();
        return v;
    }
    std::string iniText(int n)
    {
        std::string s = "[first]\nkey = value\n[section]\n";
        for (int i=0; i<n; i++) s += line(i) + " = " + line(i+1) + "\n";
        return s;
    }
    std::string xmlText(int n)
    {
        std::string s = "<?xml version=\"1.0\"?>\n<top a=\"b\">";
        for (int i=0; i<n; i++) s += "<x n=\"" + std::to_string(i) + "\">" + line(i) + "</x>\n";
        return s + "</top>\n";
    }
    std::string gedText(int n)
    {
        std::string s = "0 HEAD\n1 CHAR ANSEL\n";
        for (int i=0; i<=n/4; i++)
        {
            std::string k = std::to_string(i);
            s += "0 @I" + k + "@ INDI\n1 NAME Any /Body" + k + "/\n1 SEX F\n1 BIRT\n2 DATE 1 JAN 1900\n";
        }
        return s + "0 @F0@ FAM\n1 HUSB @I0@\n1 WIFE @I0@\n0 TRLR\n";
    }
    ref::Arr gSound;
    var sound(int n)
    {
        gSound = ref::make(TYPE_FLOAT, { 2, n }, 1, [](int i) { return ref::cd((i % 64) / 64.0); });
        return gSound.v;
    }

    std::string place() { return mc::scratch() + "/file"; }
    std::string readBy(const char* type)
    {
        file& f = get(type);
        On on;
        var v = f.read(gName);
        gOn = false;
        return ref::show(v);
    }
    std::string writtenBy(const char* type)
    {
        file& f = get(type);
        On on;
        f.write(gName, gValue);
        gOn = false;
        return slurp(place());
    }
    void text(const std::string& s) { spit(place(), s); gName = place().c_str(); gValue = nil; }
    void value(const var& v) { spit(place(), NOTHING); gName = place().c_str(); gValue = v; }
    void tree(int size)
    {
        static int made = -1;
        std::string d = mc::scratch() + "/tree";
        if (made != size && access(d.c_str(), F_OK) == 0)
        {
            std::string s = "rm -r " + d;
            if (system(s.c_str())) abort();
        }
        if (made != size)
        {
            mkdir(d.c_str(), 0700);
            for (int i=0; i<(size == 2 ? 4 : size * 2); i++)
            {
                std::string e = d + "/d" + std::to_string(i);
                mkdir(e.c_str(), 0700);
                spit(e + "/x.y", "");
                if (size == 2) { mkdir((e + "/deep").c_str(), 0700); spit(e + "/deep/file", ""); }
                spit(d + "/f" + std::to_string(i), "");
            }
            made = size;
        }
        gName = d.c_str();
        gValue = nil;
    }
    path& lister()
    {
        static pathmodule* m = new pathmodule;
        return m->create(gName);
    }

    const std::vector<Job>& jobs()
    {
        static const std::vector<Job> j = {
            { "read txt", false, [](int s) { std::string t; for (int i=0; i<count(s); i++) t += line(i) + "\n"; text(t); }, [] { return readBy("txt"); } },
            { "read ini", false, [](int s) { text(iniText(count(s))); }, [] { return readBy("ini"); } },
            { "read xml", false, [](int s) { text(xmlText(count(s))); }, [] { return readBy("xml"); } },
            { "read ged", false, [](int s) { text(gedText(count(s))); }, [] { return readBy("ged"); } },
            { "read snd", false, [](int s) { value(sound(count(s) * 8 + 1)); get("snd").write(gName, gValue); }, [] { return readBy("snd"); } },
            { "read config", false, [](int s) { text(iniText(count(s))); }, [] {
                Config c("section");
                On on;
                c.configFile(gName);
                gOn = false;
                return ref::show(c.configSection("section"));
            } },
            { "list", false, tree, [] { path& p = lister(); On on; var v = p.dir(true); gOn = false; return ref::show(v); } },
            { "list all", false, tree, [] { path& p = lister(); On on; var v = p.rdir(true); gOn = false; return ref::show(v); } },
            { "list tree", false, tree, [] { path& p = lister(); On on; var v = p.tree(); gOn = false; return ref::show(v); } },
            { "write txt", true, [](int s) { value(txtValue(count(s))); }, [] { return writtenBy("txt"); } },
            { "write ini", true, [](int s) { value(iniValue(count(s))); }, [] { return writtenBy("ini"); } },
            { "write xml", true, [](int s) { text(xmlText(count(s))); var v = get("xml").read(gName); value(v); }, [] { return writtenBy("xml"); } },
            { "write snd", true, [](int s) { value(sound(count(s) * 8 + 1)); }, [] { return writtenBy("snd"); } },
            { "write graph", true, [](int s) { value(nil); gValue = s == 2 ? 300 : s; }, [] {
                static graphmodule* m = new graphmodule;
                graph& g = m->create();
                ind last = g.addVertex();
                for (int i=0; i<gValue.get<int>(); i++)
                {
                    ind next = g.addVertex();
                    g.addEdge(last, next);
                    last = next;
                }
                On on;
                g.writeGraphViz(gName);
                gOn = false;
                return slurp(place());
            } },
            { "plot", true, [](int s) { value(s == 2 ? txtValue(500) : var({ var("plot '-'"), var({ 1.5, 2.5, 3.5 }) })); gName = nil; }, [] {
                {
                    On on;
                    filemodule m("gnuplot");
                    file& f = m.create();
                    f.write(gName, gValue);
                    f.write(gName, gValue);
                }
                gOn = false;
                return slurp(mc::scratch() + "/plot");
            } },
        };
        return j;
    }

    // The result; or if it threw
    struct Result { bool threw = false; std::string what, r; };
    Result attempt(const Job& j)
    {
        Result r;
        gCalls.clear();
        gHard = false;
        gReached = 0;
        try { r.r = j.run(); }
        catch (mc::Violation&) { throw; }
        catch (std::exception& e) { r.threw = true; r.what = e.what(); }
        gOn = false;
        return r;
    }
    const char* howName(Call c, int h)
    {
        switch (h)
        {
        case SHORT: return "is short";
        case INTR: return "is interrupted";
        default: return h == FAIL ? "fails" : "fails otherwise";
        }
    }

    void faults(int nFault, int maxSize, int maxCalls)
    {
        const Job& j = mc::pick(jobs());
        int size = mc::choose(maxSize + 1);
        // What should happen.  In the same process as what shouldn't
        static std::map<std::pair<const Job*, int>, std::pair<std::string, std::vector<Call>>> known;
        gPlan.clear();
        j.prepare(size);
        auto key = std::make_pair(&j, size);
        if (!known.count(key))
        {
            Result r = attempt(j);
            MC_CHECK(!r.threw, "works", "%s does not work: %s", j.name, r.what.c_str());
            known[key] = { r.r, gCalls };
            j.prepare(size);
            attempt(j);
            j.prepare(size);
        }
        const std::string& want = known[key].first;
        std::vector<Call> calls = known[key].second;
        if (calls.empty()) mc::prune();
        std::string what = std::string(j.name) + ", size " + std::to_string(size);
        int at = mc::choose(std::min<int>(calls.size(), maxCalls));
        int how = mc::choose(hows(calls[at]));
        gPlan.push_back({ at, how });
        what += ", where call " + std::to_string(at) + " (" + callName[calls[at]] + ") " + howName(calls[at], how);
        if (nFault > 1)
        {
            int gap = mc::range(1, 4), h2 = mc::choose(4);
            gPlan.push_back({ at + gap, h2 });
            what += ", and call " + std::to_string(at + gap) + " " + howName(READ, h2);
        }
        MC_NOTE("%s", what.c_str());
        std::string fds = descriptors(), before = ref::show(gValue), name = ref::show(gName);
        Result r = attempt(j);
        mc::step(gCalls.size());
        if (gReached < nFault) mc::prune();
        MC_CHECK(fds == descriptors(), "open", "%s: before, what was open was %s; after it is %s", what.c_str(), fds.c_str(), descriptors().c_str());
        MC_CHECK(gPipes == 0, "open", "%s: %d pipes left open", what.c_str(), gPipes);
        MC_CHECK(waitpid(-1, 0, WNOHANG) == -1 && errno == ECHILD, "child", "%s: a child is left", what.c_str());
        MC_CHECK(r.threw || r.r == want, gHard ? "silent" : "result", "%s: it doesn't throw, but the result is %s instead of %s", what.c_str(), brief(r.r).c_str(), brief(want).c_str());
        MC_CHECK(gHard || !r.threw, "throws", "%s: nothing failed for good, but it throws %s", what.c_str(), r.what.c_str());
        MC_CHECK(ref::show(gValue) == before && ref::show(gName) == name, "changed", "%s changes the value", what.c_str());
        // The same again, without fault
        gPlan.clear();
        if (!j.writes) {} else if (gName.defined()) spit(place(), NOTHING);
        Result again = attempt(j);
        MC_CHECK(!again.threw && again.r == want, "again", "after %s, again without: %s instead of %s", what.c_str(), again.threw ? again.what.c_str() : brief(again.r).c_str(), brief(want).c_str());
        MC_CHECK(fds == descriptors(), "open", "after %s and again, what was open was %s; after it is %s", what.c_str(), fds.c_str(), descriptors().c_str());
        mc::state(what + (r.threw ? " throws " + r.what : " works"));
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::bound("calls", th ? 400 : 60);
    mc::add("one fault", [=] { faults(1, 2, th ? 400 : 60); });
    mc::add("two faults", [=] { faults(2, 2, th ? 100 : 15); });
    return mc::run(argc, argv, "C41", "model_checking");
}
