// C32: range and irange.
#include "arr.h"
#include <climits>
using namespace libube;
using ref::cd;

namespace
{
    const int types[] = { TYPE_INT, TYPE_FLOAT, TYPE_CHAR, TYPE_LONG, TYPE_DOUBLE };
    const int NOTYPE = -1;

    // How an argument is passed
    enum How { VALUE, ELEMENT, MEMBER, MAPPED, VARIABLE, NHOW };
    struct Arg
    {
        var held, v;
        std::string was;
    };
    // A function, so that it becomes a reference in the caller
    void pass(var& holder, int how, var value, std::function<void(var)> f)
    {
        switch (how)
        {
        case VALUE: f(value); break;
        case VARIABLE: holder = value; f(holder); break;
        case ELEMENT:
            // Of an array of the same type
            holder = value;
            holder.array();
            holder.push(value);
            f(holder[1]);
            break;
        case MEMBER:
            holder = nil;
            holder.resize(2);
            holder.at(0) = "other";
            holder.at(1) = value;
            f(holder[1]);
            break;
        case MAPPED:
            holder = nil;
            holder["key"] = value;
            f(holder["key"]);
            break;
        }
    }

    template<class T> bool loop(std::vector<T>& r, T lo, T hi, T step, bool incl)
    {
        // In a type that can't overflow
        typedef typename std::conditional<std::is_integral<T>::value, __int128, T>::type W;
        if (!(step > 0)) return false;
        W v = lo;
        while (incl ? v <= hi : v < hi)
        {
            r.push_back((T)v);
            W n = v + step;
            if (!(n > v)) return false;
            v = n;
            if (r.size() > 1000) abort();
        }
        return true;
    }
    bool same(const var& v, int t, const std::vector<long double>& w)
    {
        if (w.empty()) return !v.defined();
        if (!v.defined()) return false;
        int ty = v.heap() ? (int)(long)v.atype() : (int)(long)v.type();
        if (ty != t || (int)v.size() != (int)w.size() || (int)v.dim() != (v.heap() ? 1 : (int)v.dim())) return false;
        for (int i=0; i<(int)w.size(); i++)
        {
            var e = v.at(i);
            e.dereference();
            switch (t)
            {
            case TYPE_CHAR: if (e.get<char>() != w[i]) return false; break;
            case TYPE_INT: if (e.get<int>() != w[i]) return false; break;
            case TYPE_LONG: if (e.get<long>() != w[i]) return false; break;
            case TYPE_FLOAT: if (e.get<float>() != w[i]) return false; break;
            case TYPE_DOUBLE: if (e.get<double>() != w[i]) return false; break;
            }
        }
        return true;
    }
    template<class T> var num(T v) { return var(v); }
    template<class T> void typed(int t, T lo, T hi, T step, int form, int how, int steptype)
    {
        // form: 0 range(hi), 1 irange(hi), 2 range(lo,hi), 3 irange, 4 range with step, 5 irange
        bool incl = !(form & 1);
        std::vector<T> w;
        if (form < 2) lo = incl ? 1 : 0;
        if (form < 4) step = 1;
        bool ends = loop(w, lo, hi, step, incl);
        if (!ends && step > 0 && w.empty()) ends = true;
        std::vector<long double> want;
        for (T x : w) want.push_back(x);
        var h[3], r;
        var vstep = steptype == NOTYPE ? var(step) : ref::scalar(steptype, cd(step));
        MC_NOTE("form %d of %s: lo %.17g hi %.17g step %.17g passed as %d, step type %d", form, ref::tname(t), (double)lo, (double)hi, (double)step, how, steptype);
        mc::step();
        std::string was[3];
        bool threw = ref::throws([&]{
            pass(h[0], how, var(lo), [&](var l){
            pass(h[1], how, var(hi), [&](var u){
            pass(h[2], how, vstep, [&](var s){
                for (int i=0; i<3; i++) was[i] = ref::show(h[i]);
                switch (form)
                {
                case 0: r = range(u); break;
                case 1: r = irange(u); break;
                case 2: r = range(l, u); break;
                case 3: r = irange(l, u); break;
                case 4: r = range(l, u, s); break;
                case 5: r = irange(l, u, s); break;
                }
            }); }); });
        });
        for (int i=0; i<3; i++) MC_CHECK(ref::show(h[i]) == was[i], "changed", "argument %d was in %s, now %s", i, was[i].c_str(), ref::show(h[i]).c_str());
        if (!ends)
            MC_CHECK(threw, "endless", "does not throw, gives %s", ref::show(r).c_str());
        else
        {
            MC_CHECK(!threw, "throw", "throws");
            MC_CHECK(same(r, t, want), "value", "gives %s, wanted %d values", ref::show(r).c_str(), (int)want.size());
            // It is a new value
            if (want.size() > 1)
            {
                r.at(0) = ref::scalar(t, cd(77));
                for (int i=0; i<3; i++) MC_CHECK(ref::show(h[i]) == was[i], "shared", "argument %d changes with the result", i);
            }
        }
        mc::state(std::to_string(form) + ref::tname(t) + ref::fmt(cd(lo, hi)) + std::to_string(step) + std::to_string(how));
    }
    void dispatch(int t, long double lo, long double hi, long double step, int form, int how, int st)
    {
        switch (t)
        {
        case TYPE_CHAR: typed<char>(t, lo, hi, step, form, how, st); break;
        case TYPE_INT: typed<int>(t, lo, hi, step, form, how, st); break;
        case TYPE_LONG: typed<long>(t, lo, hi, step, form, how, st); break;
        case TYPE_FLOAT: typed<float>(t, lo, hi, step, form, how, st); break;
        case TYPE_DOUBLE: typed<double>(t, lo, hi, step, form, how, st); break;
        }
    }
    void small(int max, int nhow)
    {
        int t = types[mc::choose(5)], form = mc::choose(6);
        int lo = form >= 2 ? mc::range(-4, max) : 0, hi = mc::range(-4, max);
        int step = form >= 4 ? mc::range(-1, 4) : 1, how = mc::choose(nhow);
        // The step can be of the type of the limits, or just an int or a float
        int st = form >= 4 ? mc::choose(3) : 0;
        st = st == 0 ? NOTYPE : st == 1 ? TYPE_INT : TYPE_FLOAT;
        dispatch(t, lo, hi, step, form, how, st);
    }
    void fractions(int max)
    {
        int t = mc::flip() ? TYPE_FLOAT : TYPE_DOUBLE, form = mc::choose(6);
        static const double steps[] = { 0.25, 0.1, 0.5, 0.75, 1.5, -0.25, 0.3 };
        int lo = form >= 2 ? mc::range(-6, max) : 0, hi = mc::range(-6, max), f = mc::choose(2);
        double step = form >= 4 ? steps[mc::choose(7)] : 1;
        double unit = f ? 0.1 : 0.25;
        dispatch(t, lo * unit, hi * unit, step, form, VALUE, NOTYPE);
    }
    // Where the arithmetic overflows, or steps are lost in rounding
    void ends(int n)
    {
        int t = types[mc::choose(5)], form = 2 + mc::choose(4);
        long double lo, hi, step = 1;
        int a = mc::range(0, n), b = mc::range(0, n);
        bool top = mc::flip();
        long double max = t == TYPE_CHAR ? CHAR_MAX : t == TYPE_INT ? INT_MAX : (long double)LONG_MAX;
        long double min = t == TYPE_CHAR ? CHAR_MIN : t == TYPE_INT ? INT_MIN : (long double)LONG_MIN;
        if (t == TYPE_FLOAT) max = 16777216 + 4, min = -max;
        if (t == TYPE_DOUBLE) max = 9007199254740992.0L + 4, min = -max;
        lo = top ? max - a : min + a;
        hi = top ? max - b : min + b;
        if (form >= 4)
        {
            static const int steps[] = { 1, 2, 3, -1, 0 };
            int s = mc::choose(7);
            if (s < 5) step = steps[s];
            else if (t >= TYPE_FLOAT) mc::prune();
            else step = s == 5 ? max : max - 1;
        }
        dispatch(t, lo, hi, step, form, VALUE, NOTYPE);
    }
    // The whole range, in few steps
    void wide()
    {
        int t = types[mc::choose(5)], form = 4 + mc::choose(2);
        if (t >= TYPE_FLOAT) mc::prune();
        long double max = t == TYPE_CHAR ? CHAR_MAX : t == TYPE_INT ? INT_MAX : (long double)LONG_MAX;
        long double min = t == TYPE_CHAR ? CHAR_MIN : t == TYPE_INT ? INT_MIN : (long double)LONG_MIN;
        long double lims[] = { min, min + 1, -1, 0, 1, max - 1, max };
        long double lo = lims[mc::choose(7)], hi = lims[mc::choose(7)];
        long double steps[] = { max, max - 1, (max + 1) / 2, (max + 1) / 4 + 1 };
        dispatch(t, lo, hi, steps[mc::choose(4)], form, VALUE, NOTYPE);
    }
    // Arguments that are no numbers, or of different types
    var odd(int k)
    {
        switch (k)
        {
        case 0: return nil;
        case 1: return var("ab");
        case 2: return ref::array(TYPE_INT, { cd(1), cd(3) });
        case 3: return ref::array(TYPE_FLOAT, { cd(2), cd(3) });
        case 4: return ref::array(TYPE_INT, { cd(1), cd(2), cd(3), cd(4) }).view({2, 2});
        case 5: { var v; v["a"] = 1; return v; }
        case 6: { var v; v.resize(2); v.at(0) = 1; v.at(1) = "x"; return v; }
        case 7: return var(cd(1, 0));
        case 8: return var(std::complex<float>(1, 2));
        case 9: return var(3);
        case 10: return var(2.0f);
        case 11: return var(3L);
        case 12: return var(INFINITY);
        case 13: return var(-(float)INFINITY);
        case 14: return var((float)NAN);
        case 15: return var("");
        }
        return var(2.0);
    }
    void others()
    {
        int form = mc::choose(6);
        int i = form >= 2 ? mc::choose(17) : 0, j = mc::choose(17), k = form >= 4 ? mc::choose(17) : 9;
        auto good = [](int a) { return a == 9 || a == 10 || a == 11 || a == 16; };
        if (form < 2) { i = j; if (good(j)) mc::prune(); }
        if (form >= 2 && good(i) && i == j && good(k)) mc::prune();
        // An infinite step does end
        if (k == 12 && i == j && good(i)) mc::prune();
        var lo = odd(i), hi = odd(j), st = odd(k), r;
        std::string a = ref::show(lo), b = ref::show(hi), c = ref::show(st);
        MC_NOTE("form %d of %s, %s, %s", form, a.c_str(), b.c_str(), c.c_str());
        mc::step();
        bool threw = ref::throws([&]{
            switch (form)
            {
            case 0: r = range(hi); break;
            case 1: r = irange(hi); break;
            case 2: r = range(lo, hi); break;
            case 3: r = irange(lo, hi); break;
            case 4: r = range(lo, hi, st); break;
            case 5: r = irange(lo, hi, st); break;
            }
        });
        MC_CHECK(threw, "accepted", "does not throw but gives %s", ref::show(r).c_str());
        MC_CHECK(ref::show(lo) == a && ref::show(hi) == b && ref::show(st) == c, "changed", "arguments become %s, %s, %s", ref::show(lo).c_str(), ref::show(hi).c_str(), ref::show(st).c_str());
    }
    // The same variable for several arguments, and for the result
    void aliased()
    {
        int t = types[mc::choose(5)], form = mc::choose(5), n = mc::range(-2, 4), target = mc::choose(3);
        var a = ref::array(t, { cd(n), cd(9), cd(1) }), v = ref::scalar(t, cd(n));
        MC_NOTE("form %d of %s, target %d", form, ref::show(v).c_str(), target);
        std::vector<long double> w;
        var r;
        var& x = target == 1 ? v : r;
        mc::step();
        bool threw = ref::throws([&]{
            switch (form)
            {
            case 0: x = range(v, v); if (target == 2) r = range(a[0], a[0]); w = { (long double)n }; break;
            case 1: x = irange(v, v); if (target == 2) r = irange(a[0], a[0]); break;
            case 2: x = range(v, v, v); if (target == 2) r = range(a[0], a[0], a[0]); w = { (long double)n }; break;
            case 3: x = range(v, ref::scalar(t, cd(n + 2)), v); if (target == 2) r = range(a[0], ref::scalar(t, cd(n + 2)), a[0]);
                for (int i=n; n>0 && i<=n+2; i+=n) w.push_back(i); break;
            case 4: x = range(v); if (target == 2) r = range(a[0]); for (int i=1; i<=n; i++) w.push_back(i); break;
            }
        });
        bool bad = (form == 2 || form == 3) && n <= 0;
        MC_CHECK(threw == bad, "throw", "form %d of %s", form, ref::show(v).c_str());
        if (!bad) MC_CHECK(same(x, t, w), "value", "form %d: %s", form, ref::show(x).c_str());
        if (target != 1 || bad) MC_CHECK(ref::num(v) == cd(n), "changed", "argument becomes %s", ref::show(v).c_str());
        MC_CHECK(ref::read(a) == (std::vector<cd>{ cd(n), cd(9), cd(1) }), "changed", "array becomes %s", ref::show(a).c_str());
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    int max = th ? 16 : 6;
    mc::bound("limits", max);
    mc::add("small", [=]{ small(max, NHOW); });
    mc::add("fractions", [=]{ fractions(th ? 20 : 8); });
    mc::add("ends", [=]{ ends(th ? 12 : 6); });
    mc::add("wide", wide);
    mc::add("others", others);
    mc::add("aliased", aliased);
    mc::add("leaks", []{ small(2, NHOW); }, mc::LEAK);
    mc::add("leaks others", others, mc::LEAK);
    return mc::run(argc, argv, "C32", "model_checking");
}
