// C33: the index type.
#include "mc.h"
#include <climits>
#include <cstdint>
#include <lube/ind.h>
#include <lube/var.h>
using libube::ind;
using libube::var;

namespace
{
    typedef intptr_t I;
    const I MAX = INTPTR_MAX, MIN = INTPTR_MIN;

    // Everything that can be observed of one
    void observe(ind x, I v, const char* what)
    {
        const ind c = x;
        mc::step();
        MC_CHECK((I)x == v, "value", "%s: value is %ld, should be %ld", what, (long)(I)x, (long)v);
        bool t = v >= 0;
        MC_CHECK((bool)x == t, "truth", "%s: %ld is %s", what, (long)v, t ? "false" : "true");
        MC_CHECK((x ? 1 : 0) == t && (!x) == !t && (x && true) == t && (x || false) == t, "truth", "%s: %ld is %s in an expression", what, (long)v, t ? "false" : "true");
        bool b = false;
        if (x) b = true;
        MC_CHECK(b == t, "truth", "%s: if(%ld) is %s", what, (long)v, b ? "taken" : "not taken");
        int n = 0;
        for (ind y = x; y; y = ~y) n++;
        MC_CHECK(n == t, "truth", "%s: while(%ld) loops %d times", what, (long)v, n);
        // Complement
        ind z = ~x;
        MC_CHECK((I)z == ~v, "complement", "%s: ~%ld is %ld", what, (long)v, (long)(I)z);
        MC_CHECK((bool)z != t, "complement", "%s: %ld and its complement are both %s", what, (long)v, t ? "true" : "false");
        MC_CHECK((I)~z == v, "complement", "%s: ~~%ld is %ld", what, (long)v, (long)(I)~z);
        MC_CHECK((I)x == v, "complement", "%s: complementing changes %ld to %ld", what, (long)v, (long)(I)x);
        MC_CHECK((I)~c == ~v, "complement", "%s: ~%ld of a constant is %ld", what, (long)v, (long)(I)~c);
        // As an integer
        MC_CHECK(sizeof(ind) == sizeof(void*), "size", "size is %d", (int)sizeof(ind));
        MC_CHECK((x < 5) == (v < 5) && (x >= 0) == (v >= 0) && (x == 0) == (v == 0) && (x != -1) == (v != -1), "compare", "%s: comparing %ld", what, (long)v);
        if (v < MAX) MC_CHECK((I)(x + 1) == v + 1, "arithmetic", "%s: %ld + 1 is %ld", what, (long)v, (long)(x + 1));
        if (v > MIN) MC_CHECK((I)(x - 1) == v - 1 && -x == -v, "arithmetic", "%s: %ld - 1 is %ld", what, (long)v, (long)(x - 1));
        MC_CHECK(x % 7 == v % 7 && x / 3 == v / 3 && (x & 255) == (v & 255), "arithmetic", "%s: of %ld", what, (long)v);
        // A copy is independent
        ind d = x;
        if (v < MAX)
        {
            I old = d++;
            MC_CHECK(old == v && (I)d == v + 1 && (I)x == v, "copy", "%s: %ld++ is %ld, gives %ld, original %ld", what, (long)v, (long)old, (long)(I)d, (long)(I)x);
            d = x;
            ind& r = ++d;
            MC_CHECK(&r == &d && (I)d == v + 1, "increment", "%s: ++%ld gives %ld", what, (long)v, (long)(I)d);
        }
        d = x;
        if (v > MIN)
        {
            I old = d--;
            MC_CHECK(old == v && (I)d == v - 1, "copy", "%s: %ld-- is %ld, gives %ld", what, (long)v, (long)old, (long)(I)d);
            d = x;
            ind& r = --d;
            MC_CHECK(&r == &d && (I)d == v - 1, "decrement", "%s: --%ld gives %ld", what, (long)v, (long)(I)d);
        }
    }
    I start(int n)
    {
        switch (mc::choose(3))
        {
        case 0: return mc::range(-n, n);
        case 1: return MAX - mc::range(0, n);
        }
        return MIN + mc::range(0, n);
    }
    void values(int n)
    {
        I v = start(n);
        MC_NOTE("%ld", (long)v);
        observe(ind(v), v, "value");
        ind d;
        observe(d, 0, "default");
        d = v;
        observe(d, v, "assigned");
        mc::state(std::to_string(v));
    }
    // Powers of two and neighbours
    void powers()
    {
        int b = mc::range(0, sizeof(I) * 8 - 2), d = mc::range(-2, 2);
        I v = ((I)1 << b) + d;
        if (mc::flip()) v = -v;
        MC_NOTE("%ld", (long)v);
        observe(ind(v), v, "value");
        mc::state(std::to_string(v));
    }
    void histories(int depth, int n)
    {
        I v = start(n);
        ind x = v, y;
        I w = 0;
        MC_NOTE("start %ld", (long)v);
        for (int i=0; i<depth; i++)
        {
            int op = mc::choose(11);
            MC_NOTE("op %d", op);
            switch (op)
            {
            case 0: if (v == MAX) mc::prune(); { I r = x++; MC_CHECK(r == v, "value", "x++ is %ld", (long)r); v++; } break;
            case 1: if (v == MIN) mc::prune(); { I r = x--; MC_CHECK(r == v, "value", "x-- is %ld", (long)r); v--; } break;
            case 2: if (v == MAX) mc::prune(); { I r = ++x; v++; MC_CHECK(r == v, "value", "++x is %ld", (long)r); } break;
            case 3: if (v == MIN) mc::prune(); { I r = --x; v--; MC_CHECK(r == v, "value", "--x is %ld", (long)r); } break;
            case 4: x = ~x; v = ~v; break;
            case 5: y = x; w = v; break;
            case 6: x = y; v = w; break;
            case 7: if (v > MAX - 3) mc::prune(); x = x + 3; v += 3; break;
            case 8: x = x / 2; v /= 2; break;
            case 9: std::swap(x, y); std::swap(v, w); break;
            case 10: if (v > MAX - 2) mc::prune(); ++(++x); v += 2; break;
            }
            observe(x, v, "after");
            observe(y, w, "other");
            mc::state(std::to_string(v) + "," + std::to_string(w));
        }
    }
    // What a search of a map returns, and loops
    void search(int n)
    {
        int mask = mc::choose(1 << n), k = mc::choose(n);
        var v;
        int at = 0, size = 0;
        bool in = (mask >> k) & 1;
        for (int i=0; i<n; i++)
            if ((mask >> i) & 1)
            {
                std::string key(1, 'a' + i);
                v[key.c_str()] = i;
                size++;
                if (i < k) at++;
            }
        if (size < 1) mc::prune();
        std::string key(1, 'a' + k);
        MC_NOTE("%s in %d", key.c_str(), mask);
        mc::step();
        ind r = v.index(key.c_str());
        MC_CHECK((bool)r == in, "truth", "index is %ld", (long)(I)r);
        if (in) MC_CHECK((I)r == at, "value", "index is %ld", (long)(I)r);
        int n2 = 0;
        for (ind i=0; i<v.size(); i++, n2++) MC_CHECK((bool)i && v.at(i).cast<int>() >= 0, "loop", "at %ld", (long)(I)i);
        MC_CHECK(n2 == size, "loop", "counts %d of %d", n2, size);
        // Backwards
        n2 = 0;
        for (ind i=v.size()-1; i; i--) n2++;
        MC_CHECK(n2 == size, "loop", "counts %d of %d backwards", n2, size);
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    int n = th ? 100000 : 1000;
    mc::bound("distance", n);
    mc::bound("depth", th ? 7 : 6);
    mc::add("values", [=]{ values(n); });
    mc::add("powers", powers);
    mc::add("histories", [=]{ histories(th ? 6 : 5, th ? 3 : 2); });
    mc::add("long histories", [=]{ histories(th ? 7 : 6, 0); });
    mc::add("search", [=]{ search(6); });
    return mc::run(argc, argv, "C33", "model_checking");
}
