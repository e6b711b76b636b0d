// probe.h -- what the test modules share with the harness of C26.
#pragma once
#include <lube/module.h>
struct Probe : public libube::Module
{
    virtual int kind() = 0;                   // which library it came from
    virtual long use(long iAdd) = 0;          // add to own total and return it
    virtual libube::var arg() = 0;            // the argument it was made with
};
extern "C" void mcMade(const void* iObject, int iKind);
extern "C" void mcGone(const void* iObject, int iKind);
extern "C" void mcLoad(int iKind, int iLoaded);
