#include "mc.h"
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <atomic>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <typeinfo>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ftw.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" const char* __asan_default_options();
const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:"
        "detect_odr_violation=0:max_allocation_size_mb=3000:"
        "quarantine_size_mb=8:malloc_context_size=8:abort_on_error=0:"
        "detect_stack_use_after_return=0:handle_abort=1:symbolize=1:"
        "alloc_dealloc_mismatch=1:intercept_tls_get_addr=0";
}

namespace mc { bool gBacktrace = false; bool gVerbose = false; int (*gBacktraceFake)(void**, int) = 0; }

// The library backtraces in the constructor of every exception; that is slow
// and is not what most checks are about.
extern "C" int backtrace(void** iBuf, int iSize)
{
    if (mc::gBacktraceFake)
        return mc::gBacktraceFake(iBuf, iSize);
    if (!mc::gBacktrace)
        return 0;
    typedef int (*fn)(void**, int);
    static fn f = (fn)dlsym(RTLD_NEXT, "backtrace");
    return f ? f(iBuf, iSize) : 0;
}

namespace mc
{
    const int MAXCHOICE = 4096;
    const int MAXW = 64;
    const int MAXSAMPLE = 2;
    const int SAMPLELEN = 512;
    const int MAXKNOWN = 64;

    struct Path { int n; uint16_t c[MAXCHOICE]; uint16_t b[MAXCHOICE]; };

    struct Slot
    {
        Path path;                         // current execution
        std::atomic<uint64_t> execs;       // executions completed (progress)
        std::atomic<uint64_t> ticks;       // all attempts
        uint64_t counted;                  // counted executions of this shard
        uint64_t pruned;
        uint64_t transitions;
        int done;                          // shard finished
        int truncated;                     // shard stopped by the clock
        int violated;
        char sig[512];
        char msg[8192];
        int nsample;
        uint16_t sample[MAXSAMPLE][SAMPLELEN];
        int samplen[MAXSAMPLE];
        int maxdepth;
        char note[1<<16];
        int notelen;
        char uncaught[512];
        uint64_t knownHits[MAXKNOWN];
    };

    struct Shared
    {
        Slot slot[MAXW+1];
        std::atomic<uint64_t> states;
        std::atomic<int> stop;
    };

    static Shared* sh;
    static std::atomic<uint64_t>* table;
    static uint64_t tableMask;
    static Slot* me;
    static std::vector<Scenario>* scen;
    static std::map<std::string,long>* bounds;
    static int workerId = 0, nWorkers = 1;
    static int pos, changed;
    static bool sharded, mine, noShard, inRun, replaying;
    static uint64_t prefix, prefixN;
    static double deadline;
    static std::string tier =
        getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough")
        ? "thorough" : "quick";
    static uint64_t theSeed = 1;
    static std::string propId, scratchBase, scratchDir;
    static std::vector<std::string> known;

    double now()
    {
        timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }

    uint64_t hash(const void* p, size_t n, uint64_t h)
    {
        const unsigned char* c = (const unsigned char*)p;
        if (h != 0xcbf29ce484222325ull)
        { h *= 0x9e3779b97f4a7c15ull; h ^= h >> 29; h += 0xcbf29ce484222325ull; }
        for (size_t i=0; i<n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
        h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
        return h;
    }

    std::string quote(const std::string& s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            char b[8];
            if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
            else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); r += b; }
            else r += (char)c;
        }
        return r + "\"";
    }

    bool thorough() { return tier == "thorough"; }
    uint64_t seed() { return theSeed; }
    const std::string& scratch()
    {
        mkdir(scratchDir.c_str(), 0700);
        return scratchDir;
    }
    void bound(const char* iName, long iValue)
    {
        if (!bounds) bounds = new std::map<std::string,long>;
        (*bounds)[iName] = iValue;
    }

    static int doChoose(int n, bool iCb)
    {
        if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); abort(); }
        if (n == 1) return 0;
        Path& p = me->path;
        int c;
        if (pos < p.n)
        {
            c = p.c[pos];
            if (replaying) { p.b[pos] = n; if (c >= n) c = n-1; }
            else if (p.b[pos] != n)
            {
                fprintf(stderr, "mc: nondeterministic scenario: choice %d had"
                        " %d branches, now %d\n", pos, p.b[pos], n);
                snprintf(me->sig, sizeof me->sig, "nondeterminism");
                snprintf(me->msg, sizeof me->msg,
                         "the same operations gave different behaviour on"
                         " re-execution (choice %d: %d then %d branches)",
                         pos, p.b[pos], n);
                me->violated = 1;
                _exit(3);
            }
        }
        else
        {
            if (p.n >= MAXCHOICE) { fprintf(stderr, "mc: too deep\n"); abort(); }
            p.c[p.n] = c = 0;
            p.b[p.n] = n;
            p.n++;
        }
        pos++;
        if (!sharded)
        {
            prefix = prefix * n + c + 1;
            prefixN *= n;
            if (!iCb && !noShard && prefixN >= (uint64_t)nWorkers * 48)
            {
                sharded = true;
                uint64_t h = hash(&prefix, sizeof prefix);
                mine = (int)(h % nWorkers) == workerId;
                if (!mine && !replaying)
                {
                    p.n = pos;
                    throw Skip();
                }
            }
        }
        return c;
    }
    int choose(int n) { return doChoose(n, false); }
    int choose_cb(int n) { return doChoose(n, true); }
    void prune() { throw Pruned(); }

    bool fresh() { return replaying || pos > changed; }

    void step(int n) { me->transitions += n; }
    void state(uint64_t h)
    {
        if (h == 0) h = 1;
        uint64_t i = h & tableMask;
        for (int probe=0; probe<64; probe++)
        {
            uint64_t v = table[i].load(std::memory_order_relaxed);
            if (v == h) return;
            if (v == 0)
            {
                uint64_t e = 0;
                if (table[i].compare_exchange_strong(e, h))
                { sh->states++; return; }
                if (e == h) return;
            }
            i = (i+1) & tableMask;
        }
    }
    void state(const std::string& s) { state(hash(s)); }

    void note(const char* iFmt, ...)
    {
        va_list ap; va_start(ap, iFmt);
        int left = (int)sizeof(me->note) - me->notelen - 2;
        if (left > 1)
        {
            int k = vsnprintf(me->note + me->notelen, left, iFmt, ap);
            me->notelen += std::min(k, left-1);
            me->note[me->notelen++] = '\n';
            me->note[me->notelen] = 0;
        }
        va_end(ap);
    }

    void violate(const std::string& iSig, const char* iFmt, ...)
    {
        snprintf(me->sig, sizeof me->sig, "%s", iSig.c_str());
        va_list ap; va_start(ap, iFmt);
        vsnprintf(me->msg, sizeof me->msg, iFmt, ap);
        va_end(ap);
        throw Violation();
    }

    void add(const char* iName, std::function<void()> iFn, int iFlags)
    {
        if (!scen) scen = new std::vector<Scenario>;
        scen->push_back({iName, iFn, iFlags});
    }

    // One execution along the current path.  Returns 0 normal, 1 skip,
    // 2 violation, 3 pruned
    static int execute(const Scenario& s)
    {
        pos = 0;
        sharded = false; mine = true; prefix = 0; prefixN = 1;
        noShard = (s.flags & NOSHARD) || nWorkers == 1;
        me->ticks++;
        int r = 0;
        try { s.fn(); }
        catch (Skip&) { r = 1; }
        catch (Pruned&) { r = 3; }
        catch (Violation&) { r = 2; }
        catch (std::exception& e)
        {
            snprintf(me->sig, sizeof me->sig, "unexpected-exception");
            snprintf(me->msg, sizeof me->msg, "unexpected exception: %s", e.what());
            r = 2;
        }
        catch (...)
        {
            snprintf(me->sig, sizeof me->sig, "unexpected-exception");
            snprintf(me->msg, sizeof me->msg, "unexpected exception");
            r = 2;
        }
        return r;
    }

    static int executeLeak(const Scenario& s)
    {
        if (!(s.flags & LEAK))
            return execute(s);
        size_t b0 = __sanitizer_get_current_allocated_bytes();
        int r = execute(s);
        size_t b1 = __sanitizer_get_current_allocated_bytes();
        if (r == 0 && b1 > b0)
        {
            // Might be a cache warming up: it is only a leak if it goes on
            bool leak = true, verbose = gVerbose;
            gVerbose = false;
            size_t grow = 0;
            for (int i=0; i<4 && leak; i++)
            {
                b0 = __sanitizer_get_current_allocated_bytes();
                execute(s);
                b1 = __sanitizer_get_current_allocated_bytes();
                if (b1 <= b0) leak = false;
                grow = b1 - b0;
            }
            gVerbose = verbose;
            if (leak)
            {
                snprintf(me->sig, sizeof me->sig, "leak");
                snprintf(me->msg, sizeof me->msg, "memory leak: %zu bytes are"
                         " never released by each run of this sequence", grow);
                return 2;
            }
        }
        return r;
    }

    static bool isKnown(const char* iSig)
    {
        for (size_t i=0; i<known.size() && i<(size_t)MAXKNOWN; i++)
            if (known[i] == iSig)
            {
                me->knownHits[i]++;
                return true;
            }
        return false;
    }

    // Explore this worker's shard of the scenario
    static void explore(const Scenario& s)
    {
        Path& p = me->path;
        p.n = 0;
        changed = -1;
        for (;;)
        {
            int r = executeLeak(s);
            if (r == 2 && !isKnown(me->sig))
            {
                me->violated = 1;
                _exit(3);
            }
            // Not reached the sharding depth: only one worker counts it
            if (r != 1 && !sharded && nWorkers > 1)
            {
                uint64_t h = hash(&prefix, sizeof prefix);
                if ((int)(h % nWorkers) != workerId) r = 1;
            }
            if (r == 3) me->pruned++;
            if (r == 0 || r == 2)
            {
                me->counted++;
                if (p.n > me->maxdepth) me->maxdepth = p.n;
                if (r == 0 && p.n <= SAMPLELEN &&
                    ((me->nsample == 0 && me->counted == 3) ||
                     (me->nsample == 1 && me->counted == 1000)))
                {
                    memcpy(me->sample[me->nsample], p.c, p.n * sizeof(uint16_t));
                    me->samplen[me->nsample] = p.n;
                    me->nsample++;
                }
            }
            me->execs++;
            // Backtrack
            if (pos < p.n && r != 1)
            {
                fprintf(stderr, "mc: nondeterministic: %d of %d choices\n", pos, p.n);
                if (r == 0)
                {
                    snprintf(me->sig, sizeof me->sig, "nondeterminism");
                    snprintf(me->msg, sizeof me->msg, "the same operations gave"
                             " different behaviour on re-execution");
                    me->violated = 1;
                    _exit(3);
                }
                p.n = pos;
            }
            while (p.n > 0 && p.c[p.n-1] + 1 == p.b[p.n-1]) p.n--;
            if (p.n == 0) break;
            p.c[p.n-1]++;
            changed = p.n - 1;
            if (sh->stop) { me->truncated = 1; break; }
            if ((me->execs & 15) == 0 && now() > deadline)
            { me->truncated = 1; break; }
        }
        me->done = 1;
    }

    enum End { E_OK, E_VIOL, E_CRASH, E_HANG, E_OOM };
    static const char* endName[] = {"ok","violation","crash","hang","runaway-memory"};

    static double cpuOf(pid_t pid)
    {
        char b[64], buf[1024];
        snprintf(b, sizeof b, "/proc/%d/stat", pid);
        int f = open(b, O_RDONLY);
        if (f < 0) return 0;
        int k = read(f, buf, sizeof buf - 1);
        close(f);
        if (k <= 0) return 0;
        buf[k] = 0;
        char* q = strrchr(buf, ')');
        if (!q) return 0;
        unsigned long u=0, st=0;
        sscanf(q+2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &st);
        return (double)(u+st) / sysconf(_SC_CLK_TCK);
    }
    static double rssOf(pid_t pid)
    {
        char b[64], buf[256];
        snprintf(b, sizeof b, "/proc/%d/statm", pid);
        int f = open(b, O_RDONLY);
        if (f < 0) return 0;
        int k = read(f, buf, sizeof buf - 1);
        close(f);
        if (k <= 0) return 0;
        buf[k] = 0;
        unsigned long v=0, r=0;
        sscanf(buf, "%lu %lu", &v, &r);
        return r * 4096.0 / 1e6;
    }

    static const double HANGCPU = 10, HANGWALL = 120, RSSMAX = 2600;

    struct Mon { pid_t pid; uint64_t last; double cpu0, wall0; bool live; End end; };

    static std::string logName(int w)
    {
        return scratchBase + "/log." + std::to_string(w);
    }

    static pid_t spawn(int w, std::function<void()> fn)
    {
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0)
        {
            setpgid(0, 0);
            int f = open(logName(w).c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0600);
            if (f >= 0) { dup2(f, 2); close(f); }
            f = open("/dev/null", O_RDWR);
            if (f >= 0) { dup2(f, 1); dup2(f, 0); close(f); }
            rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            workerId = w;
            me = &sh->slot[w];
            scratchDir = scratchBase + "/w" + std::to_string(w);
            fn();
            fflush(stdout); fflush(stderr);
            _exit(0);
        }
        return pid;
    }

    // Watch a process; returns true when finished
    static bool poll(Mon& m, Slot& s, double hangCpu)
    {
        int st;
        pid_t r = waitpid(m.pid, &st, WNOHANG);
        if (r == m.pid)
        {
            m.live = false;
            if (s.violated) m.end = E_VIOL;
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s.done) m.end = E_OK;
            else m.end = E_CRASH;
            kill(-m.pid, SIGKILL);
            return true;
        }
        double t = now();
        uint64_t e = s.ticks;
        if (e != m.last)
        { m.last = e; m.cpu0 = cpuOf(m.pid); m.wall0 = t; }
        bool hang = (t - m.wall0 > 1.0 && cpuOf(m.pid) - m.cpu0 > hangCpu)
            || t - m.wall0 > HANGWALL;
        bool oom = rssOf(m.pid) > RSSMAX;
        if (hang || oom)
        {
            kill(-m.pid, SIGKILL);
            kill(m.pid, SIGKILL);
            waitpid(m.pid, &st, 0);
            m.live = false;
            m.end = oom ? E_OOM : E_HANG;
            return true;
        }
        return false;
    }

    // Run one given path alone, in a fresh process
    static End single(const Scenario& s, const std::vector<uint16_t>& c,
                      bool iVerbose, double hangCpu)
    {
        Slot& sl = sh->slot[MAXW];
        sl.violated = 0; sl.done = 0; sl.notelen = 0; sl.note[0] = 0;
        sl.sig[0] = 0; sl.msg[0] = 0;
        memcpy(sl.path.c, c.data(), c.size() * sizeof(uint16_t));
        sl.path.n = c.size();
        Mon m;
        m.pid = spawn(MAXW, [&]{
            replaying = true; nWorkers = 1; gVerbose = iVerbose;
            int r = executeLeak(s);
            if (r == 2) { me->violated = 1; _exit(3); }
            me->done = 1;
        });
        m.last = sl.ticks; m.cpu0 = 0; m.wall0 = now(); m.live = true;
        while (!poll(m, sl, hangCpu)) usleep(2000);
        return m.end;
    }

    static std::string slurp(const std::string& f, size_t max=6000)
    {
        std::ifstream is(f);
        std::string s((std::istreambuf_iterator<char>(is)), {});
        if (s.size() > max) s.resize(max);
        return s;
    }

    static std::string jstr(const std::string& s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            char b[8];
            if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
            else if (c == '\n') r += "\\n";
            else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += (char)c;
        }
        return r + "\"";
    }

    static int rmOne(const char* p, const struct stat*, int, FTW*)
    { remove(p); return 0; }
    static void rmTree(const std::string& d)
    {
        if (d.find("/mc.") == std::string::npos) return;
        nftw(d.c_str(), rmOne, 32, FTW_DEPTH|FTW_PHYS);
    }

    static std::string theMsg(End e, Slot& sl, int w)
    {
        if (e == E_VIOL) return sl.msg;
        std::string m = endName[e];
        std::string l = slurp(logName(w));
        std::istringstream is(l);
        std::string line; int k = 0;
        while (std::getline(is, line) && k < 14)
            if (line.find("ERROR") != std::string::npos ||
                line.find("#") != std::string::npos ||
                line.find("SUMMARY") != std::string::npos ||
                line.find("terminate") != std::string::npos ||
                line.find("what()") != std::string::npos)
            { m += "\n  " + line; k++; }
        return m;
    }

    static std::string writeReplay(const std::string& iDir, const Scenario& s,
                                   const std::vector<uint16_t>& c,
                                   const std::string& iMsg,
                                   const std::string& iSig,
                                   const std::string& iTrace,
                                   const std::string& iExtra)
    {
        mkdir(iDir.c_str(), 0755);
        uint64_t h = hash(c.data(), c.size()*2, hash(s.name));
        char f[64];
        snprintf(f, sizeof f, "-%08x.txt", (unsigned)h);
        std::string name = iDir + "/" + propId + "-" + s.name + f;
        std::ofstream os(name);
        os << "property " << propId << "\nscenario " << s.name
           << "\ntier " << tier << "\nsig " << iSig << "\nchoices";
        for (auto x : c) os << " " << x;
        os << "\n" << iExtra << "\nmessage:\n" << iMsg << "\n\ntrace:\n"
           << iTrace << "\n";
        return name;
    }

    int run(int argc, char** argv, const char* iId, const char* iLevel,
            std::vector<std::string> iAssumptions)
    {
        double t0 = now();
        propId = iId;
        std::string only, replay, verif = "/verif";
        long shards = sysconf(_SC_NPROCESSORS_ONLN);
        if (getenv("VERIF_TIER")) tier = getenv("VERIF_TIER");
        if (tier != "thorough") tier = "quick";
        if (getenv("VERIF_SEED")) theSeed = strtoull(getenv("VERIF_SEED"), 0, 10);
        if (getenv("VERIF_DIR")) verif = getenv("VERIF_DIR");
        double spent = getenv("MC_T0") ? time(0) - atof(getenv("MC_T0")) : 0;
        for (int i=1; i<argc; i++)
        {
            std::string a = argv[i];
            if (a == "--tier" && i+1 < argc) tier = argv[++i];
            else if (a == "--scenario" && i+1 < argc) only = argv[++i];
            else if (a == "--replay" && i+1 < argc) replay = argv[++i];
            else if (a == "--workers" && i+1 < argc) shards = atoi(argv[++i]);
            else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
        }
        double budget = tier == "thorough" ? 780 : 150;
        if (getenv("MC_BUDGET")) budget = atof(getenv("MC_BUDGET"));
        if (shards < 2) shards = 2;
        if (shards > 16) shards = 16;
        deadline = t0 + budget - spent;

        sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ|PROT_WRITE,
                           MAP_SHARED|MAP_ANONYMOUS, -1, 0);
        uint64_t ts = tier == "thorough" ? (1ull<<26) : (1ull<<24);
        tableMask = ts - 1;
        table = (std::atomic<uint64_t>*)mmap(
            0, ts * 8, PROT_READ|PROT_WRITE,
            MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        if (sh == MAP_FAILED || table == MAP_FAILED) { perror("mmap"); return 2; }
        me = &sh->slot[MAXW];

        char sb[64];
        snprintf(sb, sizeof sb, "%s/mc.XXXXXX",
                 access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp");
        if (!mkdtemp(sb)) { perror("mkdtemp"); return 2; }
        scratchBase = sb;
        chmod(sb, 0755);

        // Known findings
        std::vector<std::string> knownText;
        {
            std::ifstream is(verif + "/known-findings.txt");
            std::string line;
            while (std::getline(is, line))
            {
                std::istringstream ls(line);
                std::string w, p, s;
                ls >> w >> p >> s;
                if (w == "known:" && p == "property=" + propId
                    && s.compare(0, 4, "sig=") == 0)
                {
                    known.push_back(s.substr(4));
                    std::string rest; std::getline(ls, rest);
                    knownText.push_back(rest);
                }
            }
        }

        std::string replayDir = verif + "/replays";
        if (!replay.empty())
        {
            std::ifstream is(replay);
            std::string line, name; std::vector<uint16_t> c;
            std::string shardSpec;
            while (std::getline(is, line))
            {
                std::istringstream ls(line);
                std::string w; ls >> w;
                if (w == "scenario") ls >> name;
                else if (w == "tier") ls >> tier;
                else if (w == "choices") { int x; while (ls >> x) c.push_back(x); }
                else if (w == "message:") break;
            }
            int rc = 2;
            for (auto& s : *scen)
                if (s.name == name)
                {
                    End e = single(s, c, true, HANGCPU);
                    printf("%s", sh->slot[MAXW].note);
                    printf("result: %s\n", endName[e]);
                    if (e != E_OK)
                        printf("%s\n%s\n", theMsg(e, sh->slot[MAXW], MAXW).c_str(),
                               slurp(logName(MAXW), 20000).c_str());
                    rc = e == E_OK ? 0 : 1;
                    if (e != E_OK)
                        printf("VIOLATION property=%s replay=%s\n", iId, replay.c_str());
                }
            rmTree(scratchBase);
            return rc;
        }

        uint64_t traces = 0, transitions = 0, pruned = 0;
        bool exhaustive = true;
        int nviol = 0, maxdepth = 0;
        std::ostringstream js, samples;
        std::set<std::string> knownSeen;
        int nsample = 0;
        size_t nScen = 0;
        for (auto& s : *scen)
        {
            if (!only.empty() && s.name != only) continue;
            nScen++;
            // A scenario may use its share of the time left, at least
            double sc0 = now();
            nWorkers = (s.flags & NOSHARD) ? 1 : shards;
            uint64_t states0 = sh->states;
            sh->stop = 0;
            for (int i=0; i<nWorkers; i++)
                memset((void*)&sh->slot[i], 0, sizeof(Slot));
            std::vector<Mon> mon(nWorkers);
            for (int i=0; i<nWorkers; i++)
            {
                mon[i].pid = spawn(i, [&]{ explore(s); });
                mon[i].last = 0; mon[i].cpu0 = 0; mon[i].wall0 = now();
                mon[i].live = true;
            }
            int live = nWorkers;
            int bad = -1;
            while (live && bad < 0)
            {
                for (int i=0; i<nWorkers; i++)
                    if (mon[i].live && poll(mon[i], sh->slot[i], HANGCPU))
                    {
                        live--;
                        if (mon[i].end != E_OK && bad < 0) bad = i;
                    }
                if (live && bad < 0) usleep(3000);
            }
            if (bad >= 0)
            {
                for (int i=0; i<nWorkers; i++)
                    if (mon[i].live)
                    {
                        int st;
                        kill(-mon[i].pid, SIGKILL);
                        kill(mon[i].pid, SIGKILL);
                        waitpid(mon[i].pid, &st, 0);
                    }
                Slot& sl = sh->slot[bad];
                End e0 = mon[bad].end;
                std::vector<uint16_t> c(sl.path.c, sl.path.c + sl.path.n);
                std::string msg = theMsg(e0, sl, bad), sig = sl.sig;
                if (e0 != E_VIOL) sig = endName[e0];
                std::string extra;
                // Confirm: alone, in a fresh process
                End e1 = single(s, c, true, HANGCPU * 1.5);
                std::string trace = sh->slot[MAXW].note;
                bool confirmed = e1 != E_OK;
                if (confirmed)
                {
                    msg = theMsg(e1, sh->slot[MAXW], MAXW);
                    if (e1 == E_VIOL) sig = sh->slot[MAXW].sig;
                }
                else
                {
                    // Perhaps it depends on what ran before in that process
                    uint64_t counted = sl.counted;
                    (void)counted;
                    memset((void*)&sl, 0, sizeof(Slot));
                    Mon m;
                    m.pid = spawn(bad, [&]{ explore(s); });
                    m.last = 0; m.cpu0 = 0; m.wall0 = now(); m.live = true;
                    while (!poll(m, sl, HANGCPU * 1.5)) usleep(3000);
                    if (m.end != E_OK)
                    {
                        confirmed = true;
                        extra = "only after the earlier executions of shard "
                            + std::to_string(bad) + " of "
                            + std::to_string(nWorkers);
                        msg = theMsg(m.end, sl, bad);
                    }
                }
                if (confirmed)
                {
                    std::string f = writeReplay(replayDir, s, c, msg, sig,
                                                trace, extra);
                    printf("%s %s: %s [%s]\n%s\n", iId, s.name.c_str(),
                           endName[e0], sig.c_str(), msg.c_str());
                    printf("trace:\n%s\n", trace.c_str());
                    printf("VIOLATION property=%s replay=%s\n", iId, f.c_str());
                    fflush(stdout);
                    nviol++;
                }
                else
                    printf("note: %s in %s did not reproduce; ignored\n",
                           endName[e0], s.name.c_str());
                exhaustive = false;
            }
            uint64_t tr = 0, tn = 0, pr = 0; bool trunc = bad >= 0;
            for (int i=0; i<nWorkers; i++)
            {
                Slot& sl = sh->slot[i];
                tr += sl.counted; tn += sl.transitions; pr += sl.pruned;
                if (sl.truncated) { exhaustive = false; trunc = true; }
                if (sl.maxdepth > maxdepth) maxdepth = sl.maxdepth;
                for (size_t k=0; k<known.size() && k<(size_t)MAXKNOWN; k++)
                    if (sl.knownHits[k]) knownSeen.insert(known[k]);
            }
            traces += tr; transitions += tn; pruned += pr;
            js << (nScen > 1 ? ",\n" : "") << "    {\"scenario\": " << jstr(s.name)
               << ", \"executions\": " << tr << ", \"transitions\": " << tn
               << ", \"new_states\": " << (sh->states - states0)
               << ", \"complete\": " << (trunc ? "false" : "true")
               << ", \"wall_s\": " << now() - sc0 << "}";
            printf("%s %-24s %10llu executions %12llu transitions %9llu states %s%.1fs\n",
                   iId, s.name.c_str(), (unsigned long long)tr,
                   (unsigned long long)tn,
                   (unsigned long long)(sh->states - states0),
                   trunc ? "(not complete) " : "", now() - sc0);
            fflush(stdout);
            // Samples
            if (bad < 0)
                for (int i=0, got=0; i<nWorkers && got<1 && nsample<12; i++)
                {
                    Slot& sl = sh->slot[i];
                    for (int k=sl.nsample-1; k>=0 && got<1; k--)
                    {
                        std::vector<uint16_t> c(sl.sample[k],
                                                sl.sample[k] + sl.samplen[k]);
                        single(s, c, true, HANGCPU);
                        std::string tr = sh->slot[MAXW].note;
                        if (tr.size() > 1200) tr.resize(1200);
                        samples << (nsample ? ",\n    " : "    ")
                                << jstr(s.name + ": " + tr);
                        nsample++; got++;
                    }
                }
            if (nviol) break;
        }
        for (size_t i=0; i<known.size(); i++)
            printf("KNOWN-FINDING: property=%s %s%s\n", iId, known[i].c_str(),
                   knownText[i].c_str());

        std::string evd = verif + "/evidence";
        mkdir(evd.c_str(), 0755);
        if (only.empty())
        {
            std::ofstream os(evd + "/" + propId + ".json");
            os << "{\n  \"property\": " << jstr(propId)
               << ",\n  \"tier\": " << jstr(tier)
               << ",\n  \"seed\": " << theSeed
               << ",\n  \"level\": " << jstr(iLevel)
               << ",\n  \"coverage\": {\n"
               << "   \"states\": " << sh->states.load()
               << ",\n   \"transitions\": " << transitions
               << ",\n   \"traces_validated_against_impl\": " << traces
               << ",\n   \"pruned\": " << pruned
               << ",\n   \"max_choice_depth\": " << maxdepth
               << ",\n   \"exhaustive\": " << (exhaustive ? "true" : "false")
               << ",\n   \"bounds\": {";
            if (bounds)
            {
                bool first = true;
                for (auto& b : *bounds)
                {
                    os << (first ? "" : ", ") << jstr(b.first) << ": " << b.second;
                    first = false;
                }
            }
            os << "},\n   \"scenarios\": [\n" << js.str() << "\n   ],\n"
               << "   \"samples\": [\n" << samples.str() << "\n   ]\n  },\n"
               << "  \"assumptions\": [";
            for (size_t i=0; i<iAssumptions.size(); i++)
                os << (i ? ", " : "") << jstr(iAssumptions[i]);
            os << "],\n  \"wall_s\": " << now() - t0 + spent
               << ",\n  \"violations\": " << nviol << "\n}\n";
        }
        rmTree(scratchBase);
        return nviol ? 1 : 0;
    }
}
