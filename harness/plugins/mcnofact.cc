// A library that is not a module
#include "probe.h"
namespace
{
    struct Loaded
    {
        Loaded() { mcLoad(2, 1); }
        ~Loaded() { mcLoad(2, 0); }
    } gLoaded;
}
