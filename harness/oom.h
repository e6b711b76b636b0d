// Operations of every kind, as a table, and an allocator that can fail.  A
// harness that includes this needs the modules
//   txt-lib ini-lib path-lib graph-lib xml-lib ged-lib snd-lib gnuplot-lib
#pragma once
#include "arr.h"
#include "json.h"
#include <fstream>
#include <new>
#include <lube/math.h>
#include <lube/string.h>
#include <lube/regex.h>
#include <lube/func.h>
#include <lube/config.h>
#include <lube/module.h>
#include <lube/path.h>
#include <lube/graph.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <lube/data.h>
#include <lube/dft.h>
using namespace libube;
using ref::cd;
using ref::cf;

/*
 * The allocator, with faults
 */
namespace
{
    bool gArmed = false, gPersist = false, gFired = false, gTolerated = false;
    long gCount = 0, gFailAt = -1;
    // The standard library's directory iterators cannot run out of memory
    bool gOutside = false;
    bool fault(void* caller)
    {
        if (!gArmed) return false;
        Dl_info d;
        if (gOutside && dladdr(caller, &d) && strstr(d.dli_fname, "libstdc++")) return false;
        long n = gCount++;
        if (gFailAt < 0) return false;
        if (n == gFailAt || (gPersist && n > gFailAt)) return gFired = true;
        return false;
    }
    void* allocate(size_t n, void* caller)
    {
        if (fault(caller)) throw std::bad_alloc();
        void* p = malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        return p;
    }
}
void* operator new(size_t n) { return allocate(n, __builtin_return_address(0)); }
void* operator new[](size_t n) { return allocate(n, __builtin_return_address(0)); }
// Has an alternative
void* operator new(size_t n, const std::nothrow_t&) noexcept
{ if (fault(__builtin_return_address(0))) { gTolerated = true; return 0; } return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{ if (fault(__builtin_return_address(0))) { gTolerated = true; return 0; } return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }

namespace
{
    typedef std::vector<var> Env;
    typedef std::function<void(Env&)> Fn;
    struct Op
    {
        const char* name;
        Fn setup, run;
        bool strong = true;    // a target is as it was if it fails
    };
    struct Armed
    {
        Armed(long n, bool p) { gCount = 0; gFailAt = n; gPersist = p; gFired = gTolerated = false; gArmed = true; }
        ~Armed() { gArmed = false; }
    };
    void fresh(Env& e, const Op& op)
    {
        e.clear();
        e.resize(6);
        op.setup(e);
    }
    std::vector<std::string> shows(const Env& e)
    {
        std::vector<std::string> r;
        for (auto& v : e) r.push_back(ref::show(v));
        return r;
    }
    // The same value, made in another way
    var clone(const var& v)
    {
        if (!v.defined()) return var();
        int t = (int)(long)v.type();
        if (t != TYPE_ARRAY) return ref::scalar(t, ref::num(v));
        int a = (int)(long)v.atype(), n = v.size();
        var r;
        if (a == TYPE_CHAR && !v.view()) return var(n, ref::strOf(v).c_str());
        if (a == TYPE_PAIR)
        {
            for (int i=0; i<n; i++) { var k = clone(v.key(i)); r[k] = clone(v.at(i)); }
            return r;
        }
        if (a == TYPE_VAR)
        {
            r.resize(n);
            if (!n) { r.array(); r.resize(0); }
            for (int i=0; i<n; i++) r.at(i) = clone(v.at(i));
            return r;
        }
        r = ref::array(a, ref::read(v));
        if (v.view()) { ref::Shape s; for (int i=0; i<(int)v.dim(); i++) s.push_back(v.shape(i)); r = r.view(ref::vshape(s)); }
        return r;
    }
    std::string gPath(const char* f) { return mc::scratch() + "/" + f; }
    var map2() { var m; m["b"] = 1; m["a"] = "x"; return m; }
    var strs() { var v; v.push("b"); v.push("a"); v.push("c"); return v; }
    var ints(int n) { std::vector<cd> v; for (int i=0; i<n; i++) v.push_back(cd((i * 5) % 7)); return ref::array(TYPE_INT, v); }
    var reals(int n, int t = TYPE_FLOAT) { std::vector<cd> v; for (int i=0; i<n; i++) v.push_back(cd(1 + (i * 5) % 7)); return ref::array(t, v); }
    var mat() { return reals(6).view({2, 3}); }
    var nested() { var v; v.resize(3); v.at(0) = "x"; v.at(1) = ints(2); v.at(2) = map2(); return v; }
    const char* longstr = "a string that does not fit anywhere without allocation";

    class Plus : public UnaryFunctor
    {
    protected:
        void scalar(const var& iVar, var& oVar) const
        {
            if ((long)iVar.type() == TYPE_ARRAY) { broadcast(iVar, oVar); return; }
            oVar = iVar + 1;
        }
    };
    class Rows : public UnaryFunctor
    {
    public: Rows() { mDim = 1; }
    protected:
        void vector(var iVar, var& oVar) const { for (int i=0; i<iVar.size(); i++) oVar[i] = iVar[iVar.size()-1-i]; }
    };

#define S [](Env& e)
    // e[0] is the target
    std::vector<Op> basic = {
        { "int", S{}, S{ e[0] = 1; } },
        { "cdouble", S{}, S{ e[0] = cd(1, 2); } },
        { "string", S{}, S{ e[0] = longstr; } },
        { "string over", S{ e[0] = "previous"; }, S{ e[0] = longstr; } },
        { "strings", S{}, S{ const char* s[] = { "one", "two", 0 }; e[0] = var(s); } },
        { "string n", S{}, S{ e[0] = var(3, "abcd"); } },
        { "strings n", S{}, S{ const char* s[] = { "one", "two" }; e[0] = var(2, s); } },
        { "ints n", S{}, S{ int x[] = { 1, 2 }; e[0] = var(2, x); } },
        { "fill", S{}, S{ e[0] = var(3, 1.0f); } },
        { "list ints", S{}, S{ e[0] = var({ 1, 2, 3 }); } },
        { "list", S{}, S{ e[0] = var({ "x", 1, 2.0f }); } },
        { "list nested", S{}, S{ e[0] = var({ var({ "p", "q" }), "x", nil }); } },
        { "tensor", S{}, S{ e[0] = var({ 2, 2 }, 1.0f); } },
        { "view shape", S{}, S{ e[0] = libube::view({ 2, 3 }, 1.0f); } },
        { "comma", S{}, S{ e[0] = (var(1), 2, 3); } },
        { "copy", S{ e[1] = ints(9); }, S{ e[0] = e[1].copy(); } },
        { "copy nested", S{ e[1] = nested(); }, S{ e[0] = e[1].copy(); } },
        { "copy map", S{ e[1] = map2(); }, S{ e[0] = e[1].copy(); } },
        { "copy view", S{ e[1] = mat(); }, S{ e[0] = e[1].copy(); } },
        { "copy alloc", S{ e[1] = mat(); }, S{ var x = e[1].copy(true); } },
        { "view", S{ e[1] = ints(6); }, S{ e[0] = e[1].view({ 2, 3 }); } },
        { "view of view", S{ e[1] = mat(); }, S{ e[0] = e[1].view({ 3, 2 }); } },
        { "subview", S{ e[1] = mat(); }, S{ e[0] = e[1].subview(1, 1); } },
        { "offset", S{ e[1] = ints(6); e[0] = e[1].view({ 2 }); }, S{ e[0].offset(2); } },
        { "index view", S{ e[1] = mat(); }, S{ e[0] = e[1](1, 2); } },
        { "shape", S{ e[1] = mat(); }, S{ e[0] = e[1].shape(); } },
        { "assign view", S{ e[0] = mat(); e[1] = reals(6).view({ 2, 3 }); }, S{ e[0] = e[1]; } },
        { "assign element", S{ e[0] = nested(); e[1] = strs(); }, S{ e[0][1] = e[1]; } },
        { "element cdouble", S{ e[0] = ref::array(TYPE_CDOUBLE, { cd(1), cd(2) }); }, S{ e[0][1] = cd(3, 3); } },
        { "read cdouble", S{ e[1] = ref::array(TYPE_CDOUBLE, { cd(1), cd(2) }); }, S{ e[0] = e[1][1]; } },
        { "dereference", S{ e[1] = ref::array(TYPE_CDOUBLE, { cd(1), cd(2) }); }, S{ var r = e[1][1]; try { r.dereference(); } catch (...) { if (r.size() != 1) e[2] = -1; throw; } e[0] = r; } },
        { "typeStr", S{ e[1] = mat(); }, S{ var x = e[1].atypeStr(); e[0] = e[1].typeStr(); } },
        { "compare", S{ e[1] = nested(); e[2] = nested(); }, S{ e[0] = (int)(e[1] == e[2]) + 2 * (int)(e[1] < e[2]); } },
        { "compare view", S{ e[1] = mat(); e[2] = mat(); }, S{ e[0] = (int)(e[1] == e[2]) + 2 * (int)(e[1] < e[2]); } },
        { "range", S{}, S{ e[0] = range(20); } },
        { "irange", S{}, S{ e[0] = irange(20.0f); } },
        { "cast", S{ e[1] = "12"; }, S{ e[0] = e[1].cast<int>(); } },
    };
    std::vector<Op> grow = {
        { "push int", S{ e[0] = 1; }, S{ e[0].push(2); } },
        { "push array", S{ e[0] = ints(7); }, S{ e[0].push(2); } },
        { "push grow", S{ e[0] = ints(8); }, S{ e[0].push(2); } },
        { "push string", S{ e[0] = "12345678"; }, S{ e[0].push('9'); } },
        { "push strings", S{ e[0] = strs(); }, S{ e[0].push("another"); } },
        { "push grow strings", S{ for (int i=0; i<8; i++) e[0].push("x"); }, S{ e[0].push("another"); } },
        { "push to nil", S{ e[1] = ints(3); }, S{ e[0].push(e[1]); } },
        { "push cdouble", S{}, S{ e[0].push(cd(1, 2)); } },
        { "push own element", S{ e[0] = strs(); }, S{ e[0].push(e[0][0]); } },
        { "push own grow", S{ for (int i=0; i<8; i++) e[0].push("x"); }, S{ e[0].push(e[0][0]); } },
        { "push nested", S{ e[0] = nested(); }, S{ e[0][2].push("more"); } },
        { "insert", S{ e[0] = ints(8); }, S{ e[0].insert(2, 3); } },
        { "insert strings", S{ e[0] = strs(); }, S{ e[0].insert("more", 1); } },
        { "insert array", S{ e[0] = ints(5); e[1] = ints(8); }, S{ e[0].insert(e[1], 1); } },
        { "insert string", S{ e[0] = "abc"; e[1] = longstr; }, S{ e[0].insert(e[1], 1); } },
        { "insert nil", S{}, S{ e[0].insert("x"); } },
        { "insert int", S{ e[0] = 1; }, S{ e[0].insert(5); } },
        { "unshift", S{ e[0] = ints(8); }, S{ e[0].unshift(9); } },
        { "unshift strings", S{ for (int i=0; i<8; i++) e[0].push("x"); }, S{ e[0].unshift("another"); } },
        { "append", S{ e[0] = "abc"; }, S{ e[0].append(longstr); } },
        { "append ints", S{ e[0] = ints(3); }, S{ int x[] = { 1, 2, 3, 4, 5, 6 }; e[0].append(6, x); } },
        { "append var", S{ e[0] = "abc"; e[1] = "defghijk"; }, S{ e[0].append(e[1]); } },
        { "append nil", S{}, S{ e[0].append("abc"); } },
        { "shift", S{ e[0] = strs(); }, S{ e[0].shift(); } },
        { "shift ints", S{ e[0] = ints(5); }, S{ e[0].shift(); } },
        { "pop", S{ e[0] = strs(); }, S{ e[0].pop(); } },
        { "pop cdouble", S{ e[0] = ref::array(TYPE_CDOUBLE, { cd(1), cd(2) }); }, S{ e[0].pop(); } },
        { "remove", S{ e[0] = strs(); }, S{ e[0].remove(1); } },
        { "remove cdouble", S{ e[0] = ref::array(TYPE_CDOUBLE, { cd(1), cd(2), cd(3) }); }, S{ e[0].remove(1); } },
        { "top", S{ e[1] = ref::array(TYPE_CDOUBLE, { cd(1), cd(2) }); }, S{ e[0] = e[1].top(); } },
        { "clear", S{ e[0] = nested(); }, S{ e[0].clear(); } },
        { "array", S{ e[0] = 1; }, S{ e[0].array(); } },
        { "array nil", S{}, S{ e[0].array(); } },
        { "resize", S{ e[0] = strs(); }, S{ e[0].resize(20); } },
        { "resize nil", S{}, S{ e[0].resize(3); } },
        { "resize int", S{ e[0] = 1; }, S{ e[0].resize(1); e[0].array(); } },
        { "resize less", S{ e[0] = nested(); }, S{ e[0].resize(1); } },
        { "presize", S{ e[0] = strs(); }, S{ e[0].presize(100); } },
        { "presize nil", S{}, S{ e[0].presize(100); } },
        { "sort", S{ e[1] = strs(); }, S{ e[0] = e[1].sort(); } },
        { "sort ints", S{ e[1] = ints(9); }, S{ e[0] = e[1].sort(); } },
    };
    std::vector<Op> maps = {
        { "new", S{}, S{ e[0]["key"] = 1; } },
        { "new string", S{}, S{ e[0]["key"] = longstr; } },
        { "add", S{ e[0] = map2(); }, S{ e[0]["aa"] = 1; } },
        { "add string", S{ e[0] = map2(); }, S{ e[0]["aa"] = longstr; } },
        { "add grow", S{ for (int i=0; i<8; i++) e[0][i] = "x"; }, S{ e[0][9] = "y"; } },
        { "add int key", S{}, S{ e[0][5] = "x"; } },
        { "overwrite", S{ e[0] = map2(); }, S{ e[0]["a"] = "abcdefgh"; } },
        { "deep", S{ e[0] = map2(); e[0]["c"] = map2(); }, S{ e[0]["c"]["d"] = "new"; } },
        { "deep new", S{ e[0] = map2(); }, S{ e[0]["c"]["d"] = "new"; }, false },
        { "read", S{ e[1] = map2(); }, S{ e[0] = e[1]["a"]; } },
        { "read missing", S{ e[0] = map2(); }, S{ e[0]["zz"]; } },
        { "at", S{ e[1] = map2(); }, S{ e[0] = e[1].at("a"); } },
        { "index", S{ e[1] = map2(); }, S{ e[0] = (int)(bool)e[1].index("b"); } },
        { "remove", S{ e[0] = map2(); }, S{ e[0].remove(0); } },
        { "key", S{ e[1] = map2(); }, S{ e[0] = e[1].key(1); } },
        { "pop", S{ e[0] = map2(); }, S{ e[0].pop(); } },
        { "shift", S{ e[0] = map2(); }, S{ e[0].shift(); } },
        { "insert map", S{ e[0] = map2(); }, S{ e[0].insert("zz"); } },
        { "var key", S{ e[0] = map2(); e[1] = ints(3); }, S{ e[0][e[1]] = "array key"; } },
    };
    std::vector<Op> maths = {
        { "add", S{ e[1] = reals(5); e[2] = reals(5); }, S{ e[0] = e[1] + e[2]; } },
        { "add matrix", S{ e[1] = mat(); e[2] = mat(); }, S{ e[0] = e[1] + e[2]; } },
        { "sub row", S{ e[1] = mat(); e[2] = reals(3); }, S{ e[0] = e[1] - e[2]; } },
        { "mul scalar", S{ e[1] = mat(); }, S{ e[0] = e[1] * 2.0f; } },
        { "div", S{ e[1] = reals(4); }, S{ e[0] = e[1] / 2.0f; } },
        { "scalars", S{}, S{ e[0] = var(1) + var(3) * 2 - 1; } },
        { "cdouble", S{ e[1] = cd(1, 2); }, S{ e[0] = e[1] * cd(2, 1) + e[1]; } },
        { "add in place", S{ e[0] = reals(5); e[1] = reals(5); }, S{ e[0] += e[1]; }, false },
        { "mul in place", S{ e[0] = mat(); }, S{ e[0] *= 2.0f; }, false },
        { "own element", S{ e[0] = reals(4); }, S{ e[0] *= e[0][1]; }, false },
        { "negate", S{ e[1] = reals(4); }, S{ e[0] = -e[1]; } },
        { "sin", S{ e[1] = mat(); }, S{ e[0] = libube::sin(e[1]); } },
        { "exp", S{ e[1] = reals(4); }, S{ e[0] = libube::exp(e[1]); } },
        { "log in place", S{ e[0] = mat(); }, S{ e[0].log(); }, false },
        { "pow", S{ e[1] = reals(4); }, S{ e[0] = libube::pow(e[1], 2.0f); } },
        { "abs", S{ e[1] = ref::array(TYPE_CDOUBLE, { cd(1, 2), cd(2, 1) }); }, S{ e[0] = libube::abs(e[1]); } },
        { "real", S{ e[1] = ref::array(TYPE_CFLOAT, { cd(1, 2), cd(2, 1) }); }, S{ e[0] = libube::real(e[1]); } },
        { "norm", S{ e[1] = ref::array(TYPE_CDOUBLE, { cd(1, 2), cd(2, 1) }); }, S{ e[0] = libube::norm(e[1]); } },
        { "transpose", S{ e[1] = mat(); }, S{ e[0] = libube::transpose(e[1]); } },
        { "dot", S{ e[1] = reals(4); e[2] = reals(4); }, S{ e[0] = libube::dot(e[1], e[2]); } },
        { "matrix product", S{ e[1] = mat(); e[2] = reals(6).view({ 3, 2 }); }, S{ e[0] = libube::dot(e[1], e[2]); } },
        { "sum", S{ e[1] = mat(); }, S{ e[0] = libube::sum(e[1]); } },
        { "iamax", S{ e[1] = reals(4); }, S{ e[0] = libube::iamax(e[1]); } },
        { "concatenate", S{ e[1] = var({ mat(), mat() }); }, S{ e[0] = libube::concatenate(e[1]); } },
        { "functor", S{ e[1] = reals(4); }, S{ e[0] = Plus()(e[1]); } },
        { "functor rows", S{ e[1] = mat(); }, S{ e[0] = Rows()(e[1]); } },
        { "functor in place", S{ e[0] = nested().at(1); }, S{ Plus()(e[0], e[0]); }, false },
        { "dft", S{ e[1] = reals(8); }, S{ libube::DFT d(8); e[0] = d(e[1]); } },
        { "dft double", S{ e[1] = reals(8, TYPE_DOUBLE); }, S{ libube::DFT d(8, 0.0); e[0] = d(e[1]); } },
        { "dft matrix", S{ e[1] = reals(16).view({ 2, 8 }); }, S{ libube::DFT d(8); e[0] = d(e[1]); } },
        { "dft complex", S{ e[1] = ref::array(TYPE_CFLOAT, { cd(1, 2), cd(2, 1), cd(3), cd(4, 4) }); }, S{ libube::DFT d(4, cf(0.0f, 0.0f)); e[0] = d(e[1]); } },
        { "idft", S{ e[1] = ref::array(TYPE_CFLOAT, { cd(1), cd(2, 1), cd(3) }); }, S{ libube::IDFT d(4); e[0] = d(e[1]); } },
        { "roots", S{ e[1] = reals(3); }, S{ e[0] = libube::roots(e[1]); } },
        { "roots double", S{ e[1] = reals(3, TYPE_DOUBLE); }, S{ e[0] = libube::roots(e[1]); } },
        { "roots four", S{ e[1] = reals(5, TYPE_DOUBLE); }, S{ e[0] = libube::roots(e[1]); } },
        { "roots matrix", S{ e[1] = mat(); }, S{ e[0] = libube::roots(e[1]); } },
        { "poly", S{ e[1] = ref::array(TYPE_CDOUBLE, { cd(1), cd(2) }); }, S{ e[0] = libube::poly(e[1]); } },
        { "poly float", S{ e[1] = ref::array(TYPE_CFLOAT, { cd(1), cd(2), cd(3, 1) }); }, S{ e[0] = libube::poly(e[1]); } },
        { "sqrt double", S{ e[1] = reals(4, TYPE_DOUBLE); }, S{ e[0] = libube::sqrt(e[1]); } },
        { "cos double", S{ e[1] = reals(6, TYPE_DOUBLE).view({ 2, 3 }); }, S{ e[0] = libube::cos(e[1]); } },
        { "atan scalar", S{ e[1] = 0.5; }, S{ e[0] = libube::atan(e[1]); } },
        { "floor nested", S{ e[0].resize(2); e[0].at(0) = 1.5; e[0].at(1) = reals(2); }, S{ libube::floor(e[0], e[0]); }, false },
        { "arg", S{ e[1] = ref::array(TYPE_CFLOAT, { cd(1, 2), cd(2, 1) }); }, S{ e[0] = libube::arg(e[1]); } },
        { "imag", S{ e[1] = ref::array(TYPE_CDOUBLE, { cd(1, 2), cd(2, 1) }); }, S{ e[0] = libube::imag(e[1]); } },
        { "pow double", S{ e[1] = reals(4, TYPE_DOUBLE); }, S{ e[0] = libube::pow(e[1], 0.5); } },
        { "set", S{ e[0] = mat(); e[1] = reals(3); }, S{ libube::set(e[0], e[1]); }, false },
        { "swap", S{ e[0] = mat(); e[1] = reals(6).view({ 2, 3 }); }, S{ var a = e[1].copy(); libube::swap(e[0], a); }, false },
        { "add double", S{ e[1] = reals(5, TYPE_DOUBLE); e[2] = reals(5, TYPE_DOUBLE); }, S{ e[0] = e[1] + e[2]; } },
        { "add complex", S{ e[1] = ref::array(TYPE_CFLOAT, { cd(1, 2), cd(2, 1) }); e[2] = ref::array(TYPE_CFLOAT, { cd(1, 2), cd(2, 1) }); }, S{ e[0] = e[1] + e[2]; } },
        { "mul matrix", S{ e[1] = mat(); e[2] = mat(); }, S{ e[0] = e[1] * e[2]; } },
        { "mul double in place", S{ e[0] = reals(6, TYPE_DOUBLE).view({ 2, 3 }); e[1] = reals(3, TYPE_DOUBLE); }, S{ e[0] *= e[1]; }, false },
        { "sub scalar", S{ e[1] = reals(4, TYPE_DOUBLE); }, S{ e[0] = e[1] - 1.5; } },
        { "dot double", S{ e[1] = reals(4, TYPE_DOUBLE); e[2] = reals(4, TYPE_DOUBLE); }, S{ e[0] = libube::dot(e[1], e[2]); } },
        { "dot matrix vector", S{ e[1] = mat(); e[2] = reals(3); }, S{ e[0] = libube::dot(e[1], e[2]); } },
        { "product double", S{ e[1] = reals(4, TYPE_DOUBLE).view({ 2, 2 }); e[2] = reals(4, TYPE_DOUBLE).view({ 2, 2 }); }, S{ e[0] = libube::dot(e[1], e[2]); } },
        { "asum", S{ e[1] = mat(); }, S{ e[0] = libube::asum(e[1]); } },
        { "sum double", S{ e[1] = reals(4, TYPE_DOUBLE); }, S{ e[0] = libube::sum(e[1]); } },
        { "transpose in place", S{ e[0] = mat(); }, S{ libube::transpose(e[0], e[0]); }, false },
        { "transpose 3d", S{ e[1] = reals(12, TYPE_DOUBLE).view({ 2, 2, 3 }); }, S{ e[0] = libube::transpose(e[1]); } },
        { "concatenate vectors", S{ e[1].resize(3); e[1].at(0) = reals(2); e[1].at(1) = reals(3); e[1].at(2) = reals(1); }, S{ e[0] = libube::concatenate(e[1]); } },
        { "sort functor", S{ e[0] = reals(5); }, S{ libube::sort(e[0], e[0]); }, false },
    };
    std::vector<Op> strings = {
        { "toupper", S{ e[1] = longstr; }, S{ e[0] = libube::toupper(e[1]); } },
        { "toupper array", S{ e[1] = strs(); }, S{ e[0] = libube::toupper(e[1]); } },
        { "tolower in place", S{ e[0] = longstr; }, S{ e[0].tolower(); } },
        { "strip", S{ e[1] = "  some words  "; }, S{ e[0] = libube::strip(e[1]); } },
        { "strip in place", S{ e[0] = "  some words  "; }, S{ e[0].strip(); } },
        { "strip array", S{ e[0] = strs(); e[0][1] = "  padded "; }, S{ e[0].strip(); }, false },
        { "split", S{ e[1] = "some words to split and a few more still"; }, S{ e[0] = e[1].split(" "); } },
        { "split max", S{ e[1] = "some words to split"; }, S{ e[0] = e[1].split(" ", 2); } },
        { "split white", S{ e[1] = " some words\tto split"; }, S{ e[0] = e[1].split(); } },
        { "join", S{ e[1] = strs(); }, S{ e[0] = e[1].join("-and-"); } },
        { "length", S{ e[1] = longstr; }, S{ e[0] = (int)e[1].len(); } },
        { "str", S{ e[1] = longstr; }, S{ e[0] = (int)strlen(e[1].str()); } },
        { "search", S{ e[1] = "find an a here"; }, S{ e[0] = e[1].search("a."); } },
        { "search groups", S{ e[1] = "find an a here"; }, S{ e[0] = e[1].search("(f)(i)n"); } },
        { "match", S{ e[1] = "find"; }, S{ e[0] = e[1].match("(f.*)(d)"); } },
        { "replace", S{ e[1] = "find an a here"; }, S{ e[0] = e[1].replace("a", "something longer"); } },
        { "bad expression", S{ e[1] = "x"; }, S{ try { e[1].search("("); } catch (std::bad_alloc&) { throw; } catch (std::exception&) { e[0] = 1; } } },
        { "getline", S{}, S{ std::istringstream i("a line that is longer than some\nnext"); i.exceptions(std::ios::badbit); e[0].getline(i); }, false },
        { "read word", S{}, S{ std::istringstream i("\"a quoted string\" next"); i.exceptions(std::ios::badbit); i >> e[0]; }, false },
        { "print", S{ e[1] = nested(); }, S{ std::ostringstream o; o.exceptions(std::ios::badbit); o << e[1]; e[0] = o.str().c_str(); } },
        { "print matrix", S{ e[1] = mat(); }, S{ std::ostringstream o; o.exceptions(std::ios::badbit); o << e[1]; e[0] = o.str().c_str(); } },
        { "json", S{ e[1] = nested(); }, S{ varstream o; o.exceptions(std::ios::badbit); o << e[1]; e[0] = (var)o; } },
        { "stream", S{}, S{ varstream o; o.exceptions(std::ios::badbit); o << "some text longer than eight, " << 12 << 3.5; e[0] = (var)o; } },
        { "stream onto", S{ e[0] = "begin"; }, S{ varstream o(e[0]); o.exceptions(std::ios::badbit); o << longstr << 1; }, false },
        { "stream in", S{ e[1] = "12 word"; }, S{ varstream i(e[1]); i.exceptions(std::ios::badbit); int x; std::string w; i >> x >> w; e[0] = x; } },
        { "parse number", S{ e[1] = "12.5"; }, S{ varstream i(e[1]); i.exceptions(std::ios::badbit); i >> e[0]; }, false },
        { "parse object", S{ e[1] = "{\"a\": [1, 2, \"three\"], \"b\": {\"c\": 1.5}}"; }, S{ varstream i(e[1]); i.exceptions(std::ios::badbit); i >> e[0]; }, false },
        { "parse array", S{ e[1] = "[[1,2],[3,4],\"a rather long string here\"]"; }, S{ varstream i(e[1]); i.exceptions(std::ios::badbit); i >> e[0]; }, false },
        { "parse error", S{ e[1] = "[1,"; }, S{ varstream i(e[1]); i.exceptions(std::ios::badbit); try { i >> e[2]; } catch (libube::error&) { } e[0] = 1; e[2] = nil; }, false },
        { "error", S{ e[1] = longstr; }, S{ try { throw libube::error(e[1]); } catch (libube::error& x) { e[0] = x.what(); } } },
        { "error in library", S{ e[1] = mat(); }, S{ try { e[2] = e[1](5, 5); } catch (libube::error& x) { e[0] = x.what(); } } },
    };
    // With modules: loaded outside
    std::unique_ptr<filemodule> txt, ini, xml, ged, snd;
    std::unique_ptr<pathmodule> pm;
    std::unique_ptr<graphmodule> gm;
    void content(const char* f, const std::string& c) { std::ofstream o(gPath(f)); o << c; }
    std::string content(const std::string& f)
    {
        // Not part of the operation
        struct Off { bool was = gArmed; Off() { gArmed = false; } ~Off() { gArmed = was; } } off;
        std::ifstream i(f);
        std::stringstream s;
        s << i.rdbuf();
        return s.str();
    }
    std::vector<Op> files = {
        { "txt read", S{ content("t.txt", "a line\nanother line that is longer\n\nlast"); txt.reset(new filemodule("txt")); }, S{ e[0] = txt->create().read(gPath("t.txt").c_str()); } },
        { "txt write", S{ e[1] = strs(); txt.reset(new filemodule("txt")); }, S{ txt->create().write(gPath("w.txt").c_str(), e[1]); e[0] = content(gPath("w.txt")).c_str(); } },
        { "ini read", S{ content("t.ini", "[sec]\nkey=value\nother=a long value for it\n[two]\na=b\n"); ini.reset(new filemodule("ini")); }, S{ e[0] = ini->create().read(gPath("t.ini").c_str()); } },
        { "ini write", S{ e[1]["sec"]["key"] = "value"; e[1]["sec"]["b"] = "2"; e[1]["two"]["c"] = longstr; ini.reset(new filemodule("ini")); }, S{ ini->create().write(gPath("w.ini").c_str(), e[1]); e[0] = content(gPath("w.ini")).c_str(); } },
        { "ini missing", S{ ini.reset(new filemodule("ini")); }, S{ try { ini->create().read(gPath("none.ini").c_str()); } catch (libube::error& x) { e[0] = "failed"; } } },
        { "module", S{}, S{ filemodule m("ini"); m.create(); e[0] = 1; } },
        { "module missing", S{}, S{ try { filemodule m("nosuch"); e[0] = 2; } catch (libube::error& x) { e[0] = 1; } } },
        { "graph", S{ gm.reset(new graphmodule); }, S{ graph& g = gm->create(); g.addEdge(0, 1); g.addVertex(); g.writeGraphViz(gPath("g.dot").c_str()); e[0] = content(gPath("g.dot")).c_str(); } },
        { "path", S{ ::mkdir(gPath("d").c_str(), 0777); content("d/f", ""); content("d/g", ""); ::mkdir(gPath("d/s").c_str(), 0777); content("d/s/h", ""); pm.reset(new pathmodule); }, S{ e[0] = pm->create(gPath("d").c_str()).dir().sort(); } },
        { "path tree", S{ pm.reset(new pathmodule); }, S{ e[0] = pm->create(gPath("d").c_str()).tree(); } },
        { "path rdir", S{ pm.reset(new pathmodule); }, S{ e[0] = pm->create(gPath("d").c_str()).rdir().sort(); } },
        { "xml read", S{ content("t.xml", "<?xml version=\"1.0\"?>\n<top a=\"1\" b=\"two\">text<in>more text than that</in><in c=\"d\"/>end</top>\n"); xml.reset(new filemodule("xml")); }, S{ e[0] = xml->create().read(gPath("t.xml").c_str()); } },
        { "xml bad", S{ content("b.xml", "<top><a></b></top>"); xml.reset(new filemodule("xml")); }, S{ try { xml->create().read(gPath("b.xml").c_str()); } catch (libube::error& x) { e[0] = "failed"; } } },
        { "xml write", S{ content("t.xml", "<top a=\"1\" b=\"two\">text<in>more &amp; text</in><in c=\"d\"/>end</top>\n"); xml.reset(new filemodule("xml")); e[1] = xml->create().read(gPath("t.xml").c_str()); }, S{ xml->create().write(gPath("w.xml").c_str(), e[1]); e[0] = content(gPath("w.xml")).c_str(); } },
        { "ged read", S{ content("t.ged", "0 HEAD\n1 GEDC\n2 VERS 5.5\n1 CHAR UTF-8\n0 @I1@ INDI\n1 NAME Someone With /Aname/\n2 GIVN Someone\n1 FAMS @F1@\n0 @F1@ FAM\n1 HUSB @I1@\n0 TRLR\n"); ged.reset(new filemodule("ged")); }, S{ e[0] = ged->create().read(gPath("t.ged").c_str()); } },
        { "ged write", S{ content("t.ged", "0 HEAD\n1 CHAR UTF-8\n0 @I1@ INDI\n1 NAME Someone With /Aname/\n2 GIVN Someone\n0 TRLR\n"); ged.reset(new filemodule("ged")); e[1] = ged->create().read(gPath("t.ged").c_str()); }, S{ ged->create().write(gPath("w.ged").c_str(), e[1]); e[0] = content(gPath("w.ged")).c_str(); } },
        { "snd", S{ snd.reset(new filemodule("snd")); e[1] = reals(6).view({ 2, 3 }); e[1] *= 0.125f; e[2]["rate"] = 16000; }, S{ snd->create(e[2]).write(gPath("w.wav").c_str(), e[1]); e[0] = snd->create(e[2]).read(gPath("w.wav").c_str()); }, false },
        { "option", S{ e[1] = longstr; }, S{ char a0[] = "prog", a1[] = "-a", a2[] = "-b", a3[] = "value", a4[] = "word"; char* av[] = { a0, a1, a2, a3, a4, 0 }; Option o("name"); o("what it does"); o('a', "flag"); o('b', "value", e[1]); var p = o.parse(5, av), r = o.args(); e[0] = p; } },
        { "option loop", S{}, S{ char a0[] = "prog", a1[] = "-a", a2[] = "-bvalue", a3[] = "word"; char* av[] = { a0, a1, a2, a3, 0 }; Option o(4, av, "ab:"); int n = 0; var b; while (o) { n = n * 256 + o.get(); if (o.get() == 'b') b = o.arg(); } var r = o.args(); r.push(n); r.push(b); e[0] = r; } },
        { "config", S{ content("c.ini", "[sec]\nkey=value\nnum=12\n"); }, S{ Config c("sec"); c.configFile(gPath("c.ini").c_str()); c.configSet("set", longstr); e[0] = var({ c.config("key"), c.config("set"), c.config<double>("num", 1.0) }); } },
    };

    void release() { txt.reset(); ini.reset(); xml.reset(); ged.reset(); snd.reset(); pm.reset(); gm.reset(); }
}
