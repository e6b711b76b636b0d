// ref.h -- reference values, and observation of a var through its public API.
#pragma once
#include "mc.h"
#include <cmath>
#include <complex>
#include <limits>
#include <locale>
#include <memory>
#include <sstream>
#include <lube/var.h>

namespace ref
{
    using libube::var;
    using libube::ind;
    using libube::nil;
    typedef std::complex<double> cd;
    typedef std::complex<float> cf;

    inline const char* tname(int t)
    {
        static const char* n[] = {"array","char","int","long","float","double",
                                  "cfloat","cdouble","var","pair"};
        return t >= 0 && t < 10 ? n[t] : "?";
    }

    // A scalar of the given type.
    inline var scalar(int t, cd v)
    {
        switch (t)
        {
        case libube::TYPE_CHAR:    return var((char)v.real());
        case libube::TYPE_INT:     return var((int)v.real());
        case libube::TYPE_LONG:    return var((long)v.real());
        case libube::TYPE_FLOAT:   return var((float)v.real());
        case libube::TYPE_DOUBLE:  return var((double)v.real());
        case libube::TYPE_CFLOAT:  return var(cf(v.real(), v.imag()));
        case libube::TYPE_CDOUBLE: return var(v);
        }
        abort();
    }

    // The value as it would be once stored as type t
    inline cd as(int t, cd v)
    {
        switch (t)
        {
        case libube::TYPE_CHAR:    return cd((char)v.real());
        case libube::TYPE_INT:     return cd((int)v.real());
        case libube::TYPE_LONG:    return cd((long)v.real());
        case libube::TYPE_FLOAT:   return cd((float)v.real());
        case libube::TYPE_DOUBLE:  return cd((double)v.real());
        case libube::TYPE_CFLOAT:  return cd((float)v.real(), (float)v.imag());
        }
        return v;
    }

    inline bool isReal(int t)
    { return t >= libube::TYPE_CHAR && t <= libube::TYPE_DOUBLE; }
    inline bool isNum(int t)
    { return t >= libube::TYPE_CHAR && t <= libube::TYPE_CDOUBLE; }

    // The type of a single value (cdouble singles are arrays inside)
    inline int stype(const var& v)
    {
        if (!v.defined()) return -1;
        int t = (int)(long)v.type();
        return t;
    }

    // Numeric value of a (reference to a) scalar
    inline cd num(const var& v)
    {
        switch ((long)v.type())
        {
        case libube::TYPE_CHAR:    return cd(v.get<char>());
        case libube::TYPE_INT:     return cd(v.get<int>());
        case libube::TYPE_LONG:    return cd(v.get<long>());
        case libube::TYPE_FLOAT:   return cd(v.get<float>());
        case libube::TYPE_DOUBLE:  return cd(v.get<double>());
        case libube::TYPE_CFLOAT:  { cf c = v.get<cf>(); return cd(c.real(), c.imag()); }
        case libube::TYPE_CDOUBLE: return v.get<cd>();
        case libube::TYPE_ARRAY:
            if (v.defined() && v.atype<cd>() && v.size() == 1)
                return v.at(0).get<cd>();
        }
        return cd(std::nan(""), 0);
    }

    inline std::string fmt(cd v, bool c = true)
    {
        char b[96];
        if (c) snprintf(b, sizeof b, "%.17g%+.17gi", v.real(), v.imag());
        else snprintf(b, sizeof b, "%.17g", v.real());
        return b;
    }

    inline std::string strOf(const var& v)     // contents of a char array
    {
        std::string s;
        int n = v.size();
        for (int i=0; i<n; i++) s += v.at(i).get<char>();
        return s;
    }

    // Everything observable about a value
    inline std::string show(const var& v, int depth = 0)
    {
        if (depth > 8) return "...";
        if (!v.defined()) return "nil";
        int t = (int)(long)v.type();
        if (t != libube::TYPE_ARRAY)
            return std::string(tname(t)) + " " + fmt(num(v), t >= libube::TYPE_CFLOAT);
        int a = (int)(long)v.atype();
        int n = v.size();
        std::string r;
        if (v.view())
        {
            r = "view(";
            for (int i=0; i<v.dim(); i++)
                r += (i ? "x" : "") + std::to_string(v.shape(i));
            r += ")";
        }
        if (a == libube::TYPE_CHAR)
            return r + mc::quote(strOf(v));
        if (a == libube::TYPE_PAIR)
        {
            r += "{";
            for (int i=0; i<n; i++)
                r += (i ? ", " : "") + show(v.key(i), depth+1) + ": "
                    + show(v.at(i), depth+1);
            return r + "}";
        }
        if (a == libube::TYPE_VAR)
        {
            r += "[";
            for (int i=0; i<n; i++)
                r += (i ? ", " : "") + show(v.at(i), depth+1);
            return r + "]";
        }
        r += std::string(tname(a)) + "[";
        for (int i=0; i<n; i++)
            r += (i ? ", " : "") + fmt(num(v.at(i)), a >= libube::TYPE_CFLOAT);
        return r + "]";
    }

    // Run something that may throw any std::exception; true if it threw
    template<class F> bool throws(F f)
    {
        try { f(); }
        catch (mc::Skip&) { throw; }
        catch (mc::Violation&) { throw; }
        catch (mc::Pruned&) { throw; }
        catch (std::exception&) { return true; }
        return false;
    }

    // Typed array of n elements
    inline var array(int t, const std::vector<cd>& v)
    {
        var r = libube::view({(int)v.size()}, scalar(t, 0));
        // A plain array rather than a one dimensional view
        var a = scalar(t, v.empty() ? cd(0) : v[0]);
        if (t == libube::TYPE_CDOUBLE)
            a = a.copy();
        a.array();
        a.resize(v.size());
        for (size_t i=0; i<v.size(); i++)
            a.at(i) = scalar(t, v[i]);
        return a;
    }

    // A program in a locale that writes 1234.5 as 1.234,5
    struct Punct : std::numpunct<char>
    {
        char do_decimal_point() const override { return ','; }
        char do_thousands_sep() const override { return '.'; }
        std::string do_grouping() const override { return "\3"; }
    };
    inline std::locale foreign() { return std::locale(std::locale::classic(), new Punct); }
    struct Foreign
    {
        std::locale mOld;
        Foreign() : mOld(std::locale::global(foreign())) {}
        ~Foreign() { std::locale::global(mOld); }
    };
}
