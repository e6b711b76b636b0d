// big.h -- arrays that are longer than the exhaustive histories get to: every
// size up to a small one, then those on either side of each power of two (and
// some others), up to a limit; with values that depend upon the position.
#pragma once
#include "ref.h"

namespace ref
{
    inline std::vector<int> bigSizes(int max, int every = 20)
    {
        std::vector<int> r;
        if (mc::thorough()) every *= 4;
        for (int i=0; i<=max; i++)
        {
            bool p = false;
            for (int k=16; k<=max+1; k*=2) p |= i >= k-1 && i <= k+1;
            if (i <= every || p || i == 24 || i == 100 || i == 1000 || i == 3000 || i == max) r.push_back(i);
        }
        return r;
    }
    // Integers, such that every type can hold them exactly
    inline int patn(int i, int salt = 0) { return (int)((i * 37L + salt * 13L + 11) % 61) + 33; }
    inline cd pat(int t, int i, int salt = 0)
    {
        double x = patn(i, salt);
        if (t == libube::TYPE_CHAR) return x;
        if (i % 3 == 1) x = -x;
        return cd(x, t >= libube::TYPE_CFLOAT ? i % 7 - 3 : 0);
    }
    inline std::vector<cd> pats(int t, int n, int salt = 0)
    {
        std::vector<cd> r(n);
        for (int i=0; i<n; i++) r[i] = pat(t, i, salt);
        return r;
    }
    inline var bigarr(int t, int n, int salt = 0) { return array(t, pats(t, n, salt)); }
    // The first element that is not as it should be, or -1
    inline int differs(const var& v, const std::vector<cd>& w)
    {
        int n = w.size();
        for (int i=0; i<n; i++) if (num(v.at(i)) != w[i]) return i;
        return -1;
    }
    inline int differs(const var& v, const std::vector<std::string>& w)
    {
        int n = w.size();
        for (int i=0; i<n; i++) { var x = v.at(i); if (!x.defined() || !x.heap() || !x.atype<char>() || strOf(x) != w[i]) return i; }
        return -1;
    }
}
