// arr.h -- arrays and views of given shape with guard elements, for the
// harnesses that check array functors.
#pragma once
#include "ref.h"

namespace ref
{
    typedef std::vector<int> Shape;
    inline int prod(const Shape& s) { int p = 1; for (int i : s) p *= i; return p; }
    inline std::string str(const Shape& s)
    {
        std::string r;
        for (size_t i=0; i<s.size(); i++) r += (i ? "x" : "") + std::to_string(s[i]);
        return r;
    }
    inline var vshape(const Shape& s) { return var((int)s.size(), s.data()); }

    inline std::vector<Shape> shapes(int mind, int maxd, int minn, int maxn)
    {
        std::vector<Shape> r;
        for (int d=mind; d<=maxd; d++)
        {
            Shape s(d, minn);
            for (;;)
            {
                r.push_back(s);
                int k = d - 1;
                while (k >= 0 && ++s[k] > maxn) s[k--] = minn;
                if (k < 0) break;
            }
        }
        return r;
    }

    // how: 0 plain (1-D only) or a view of exactly its own size; n > 0 a view
    // at offset n in a larger array
    struct Arr
    {
        var base, v;
        int t, off, n;
        std::vector<cd> was;           // of the whole base
        Shape s;
        void set(int i, cd c) { was[off+i] = c; }
        cd get(int i) const { return was[off+i]; }
    };
    template<class F> Arr make(int t, const Shape& s, int how, F f)
    {
        Arr r;
        r.t = t;
        r.s = s;
        r.n = prod(s);
        r.off = how;
        int total = how ? r.n + how + 2 : r.n;
        for (int i=0; i<total; i++)
            r.was.push_back(i >= r.off && i < r.off + r.n ? as(t, f(i - r.off)) : as(t, cd(90 + i)));
        r.base = ref::array(t, r.was);
        r.v = (how == 0 && s.size() == 1) ? r.base : r.base.view(vshape(s), r.off);
        return r;
    }
    inline std::vector<cd> read(const var& v)
    {
        std::vector<cd> r;
        if (!v.defined()) return r;
        if ((long)v.type() != libube::TYPE_ARRAY) { r.push_back(num(v)); return r; }
        int n = v.size();
        for (int i=0; i<n; i++) r.push_back(num(v.at(i)));
        return r;
    }
    inline std::string list(const std::vector<cd>& v)
    {
        std::string r;
        for (auto c : v) r += (r.size() ? ", " : "") + (c.imag() ? fmt(c) : fmt(c, false));
        return "[" + r + "]";
    }
    inline bool shaped(const var& v, const Shape& s)
    {
        if ((int)v.dim() != (int)s.size()) return false;
        for (size_t i=0; i<s.size(); i++) if (v.shape(i) != s[i]) return false;
        return true;
    }
    inline double epsOf(int t)
    { return (t == libube::TYPE_FLOAT || t == libube::TYPE_CFLOAT) ? 1.2e-7 : 2.3e-16; }
    inline bool exact(const std::vector<cd>& a, const std::vector<cd>& b) { return a == b; }
    // The storage of x is as it should be
    inline void unchanged(const Arr& x, const char* sig, const std::string& what)
    {
        auto g = read(x.base);
        if (g != x.was)
            mc::violate(sig, "%s leaves %s in storage that should be %s", what.c_str(),
                        list(g).c_str(), list(x.was).c_str());
    }
}
