// A module that works, or on request makes nothing or throws
#include <cstring>
#include "probe.h"
#ifndef KIND
#define KIND 0
#endif
using namespace libube;
namespace
{
    bool is(var& iArg, const char* iStr)
    {
        return iArg.defined() && iArg.atype<char>() && !strcmp(iArg.str(), iStr);
    }
    struct Loaded
    {
        Loaded() { mcLoad(KIND, 1); }
        ~Loaded() { mcLoad(KIND, 0); }
    } gLoaded;
    class Test : public Probe
    {
    public:
        Test(var iArg) : mArg(iArg), mTotal(0), mSpace(new char[64]) { mcMade(this, KIND); }
        ~Test() { mcGone(this, KIND); delete [] mSpace; }
        int kind() { return KIND; }
        long use(long iAdd) { mSpace[0] = 1; return mTotal += iAdd; }
        var arg() { return mArg; }
    private:
        var mArg;
        long mTotal;
        char* mSpace;
    };
}
void libube::factory(Module** oModule, var iArg)
{
    if (is(iArg, "nothing"))
        return;
    if (is(iArg, "null"))
    {
        *oModule = 0;
        return;
    }
    if (is(iArg, "throw"))
        throw error("test module throws");
    *oModule = new Test(iArg);
}
