// mc.h -- a stateless, choice-driven model checker for sequential code.
//
// A scenario is an ordinary function which runs the real library.  Whenever it
// wants a nondeterministic value it calls mc::choose(n).  The explorer runs
// the scenario once for every possible sequence of answers (depth-first,
// exhaustively within the scenario's bounds), spread over forked workers, with
// AddressSanitizer watching the library.  A crash, sanitizer report, hang,
// runaway allocation, leak, unexpected exception or failed MC_CHECK on any of
// these executions is a violation of the property.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc
{
    struct Skip {};          // this subtree belongs to another worker
    struct Violation {};     // thrown by violate()
    struct Pruned {};        // thrown by prune(): execution is not a case

    enum Flags { NONE = 0, LEAK = 1, NOSHARD = 2 };

    // Nondeterminism.
    int choose(int n);                       // 0 .. n-1, explored exhaustively
    int choose_cb(int n);                    // same, from library callbacks
                                             // (never throws Skip)
    inline int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
    inline bool flip() { return choose(2) != 0; }
    template<class T, size_t N> const T& pick(const T (&a)[N])
    { return a[choose((int)N)]; }
    template<class T> const T& pick(const std::vector<T>& a)
    { return a[choose((int)a.size())]; }
    [[noreturn]] void prune();               // drop this execution

    // Bookkeeping
    bool fresh();                            // not yet seen by this worker:
                                             // the choices up to here differ
                                             // from the previous execution
    void step(int n = 1);                    // a transition of the system
    void state(uint64_t iHash);              // an observed state
    void state(const std::string& iStr);
    bool thorough();
    uint64_t seed();

    // Tracing: only evaluated when a trace is being written out
    extern bool gVerbose;
    void note(const char* iFmt, ...) __attribute__((format(printf,1,2)));

    // Violations.  sig identifies the specific failing case (matched against
    // known-findings.txt)
    [[noreturn]] void violate(const std::string& iSig, const char* iFmt, ...)
        __attribute__((format(printf,2,3)));

    // A scratch directory private to this worker; removed at the end
    const std::string& scratch();

    // Remember something about the coverage to put in the evidence
    void bound(const char* iName, long iValue);

    struct Scenario
    {
        std::string name;
        std::function<void()> fn;
        int flags;
    };
    void add(const char* iName, std::function<void()> iFn, int iFlags = NONE);
    int run(int argc, char** argv, const char* iId, const char* iLevel,
            std::vector<std::string> iAssumptions = {});

    // Whether error backtraces are generated (slow)
    extern bool gBacktrace;
    extern int (*gBacktraceFake)(void**, int);

    uint64_t hash(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull);
    inline uint64_t hash(const std::string& s) { return hash(s.data(), s.size()); }
    std::string quote(const std::string& s);
}

#define MC_NOTE(...) do { if (mc::gVerbose) mc::note(__VA_ARGS__); } while (0)
#define MC_CHECK(cond, sig, ...) \
    do { if (!(cond)) mc::violate(sig, __VA_ARGS__); } while (0)
