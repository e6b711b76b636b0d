// C31: functors defined by users.
#include "arr.h"
#include "big.h"
#include <algorithm>
#include <map>
#include <lube/func.h>
using namespace libube;
using mc::quote;
using ref::cd;
using ref::Shape;
using ref::Arr;
typedef std::vector<cd> Vec;

namespace
{
    struct Boom : public std::exception { const char* what() const noexcept { return "boom"; } };
    // What the functors see and do
    std::vector<Vec> gCalls;
    int gThrowAt = -1;
    void called(const Vec& v)
    {
        gCalls.push_back(v);
        if ((int)gCalls.size() - 1 == gThrowAt) throw Boom();
    }
    Vec read(const var& v) { return ref::read(v); }
    void write(var& o, const Vec& v)
    {
        MC_CHECK((int)o.size() >= (int)v.size(), "output", "a functor is given space for %d values rather than %d", (int)o.size(), (int)v.size());
        int t = o.heap() ? (int)(long)o.atype() : (int)(long)o.type();
        for (size_t i=0; i<v.size(); i++) o[i] = ref::scalar(t, v[i]);
    }
    var single(int t, cd v)
    {
        // As element of an array of the same type, as it would be
        return ref::scalar(t, v);
    }

    /* The functors.  What they calculate depends on all inputs */
    cd one(cd x) { return 2.0 * x + 1.0; }
    cd two(cd x, cd y) { return 3.0 * x + y; }
    Vec rev(const Vec& v)
    {
        Vec r(v.rbegin(), v.rend());
        for (auto& x : r) x += 1.0;
        return r;
    }
    Vec mix(const Vec& a, const Vec& b)
    {
        Vec r = a;
        for (size_t i=0; i<r.size(); i++) r[i] = two(r[i], b.empty() ? cd(0) : b[(i + 1) % b.size()]);
        return r;
    }

    class Scalar : public UnaryFunctor
    {
    protected:
        void scalar(const var& iVar, var& oVar) const
        {
            bool arr = (long)iVar.type() == TYPE_ARRAY && !(iVar.atype<cd>() && !iVar.view() && iVar.size() == 1);
            if (arr) { broadcast(iVar, oVar); return; }
            Vec v = { ref::num(iVar) };
            int t = (int)(long)iVar.type();
            if (t == TYPE_ARRAY) t = TYPE_CDOUBLE;
            called(v);
            oVar = single(t, one(v[0]));
        }
    };
    class Block : public UnaryFunctor
    {
    public:
        Block(int d, bool offsets, int extra) : mOffsets(offsets), mExtra(extra) { mDim = d; }
    protected:
        var alloc(var iVar) const
        {
            if (!mExtra) return UnaryFunctor::alloc(iVar);
            var s = iVar.shape();
            int n = s[s.size()-1].cast<int>();
            s[s.size()-1] = n + mExtra;
            return libube::view(s, iVar.at(0));
        }
        void vector(var iVar, var& oVar) const
        {
            MC_CHECK((int)iVar.dim() == mDim, "dim", "a functor of dimension %d is given %s", mDim, ref::show(iVar).c_str());
            gShapes.push_back({});
            for (int i=0; i<mDim; i++) gShapes.back().push_back(iVar.shape(i));
            Vec v = read(iVar);
            called(v);
            write(oVar, rev(v));
        }
        void vector(var iVar, ind iI, var& oVar, ind iO) const
        {
            if (!mOffsets) { UnaryFunctor::vector(iVar, iI, oVar, iO); return; }
            int n = 1, d = iVar.dim();
            gShapes.push_back({});
            for (int i=0; i<mDim; i++) { n *= iVar.shape(d-mDim+i); gShapes.back().push_back(iVar.shape(d-mDim+i)); }
            Vec v;
            for (int i=0; i<n; i++) v.push_back(ref::num(iVar.at(iI + i)));
            called(v);
            v = rev(v);
            int t = oVar.atype();
            for (int i=0; i<n; i++) oVar.at(iO + i) = ref::scalar(t, v[i]);
        }
    private:
        bool mOffsets;
        int mExtra;
    public:
        static std::vector<Shape> gShapes;
    };
    std::vector<Shape> Block::gShapes;

    class Pair : public BinaryFunctor
    {
    public:
        Pair(int d) { mDim = d; }
    protected:
        void vector(var iVar1, var iVar2, var& oVar) const
        {
            Vec a = read(iVar1), b = read(iVar2), c = a;
            c.insert(c.end(), b.begin(), b.end());
            called(c);
            Vec r = mix(a, b);
            if ((long)oVar.type() != TYPE_ARRAY) oVar = single((int)(long)oVar.type(), r[0]);
            else write(oVar, r);
        }
    };
    class Arith : public ArithmeticFunctor
    {
    protected:
        void scalar(const var& iVar1, const var& iVar2, var& oVar) const
        {
            if ((long)iVar1.type() == TYPE_ARRAY) { broadcast(iVar1, iVar2, oVar); return; }
            // It could be an array of size 1
            Vec v = { ref::num(iVar1), read(iVar2)[0] };
            called(v);
            oVar = single((int)(long)iVar1.type(), two(v[0], v[1]));
        }
        void vector(var iVar1, ind i1, var iVar2, ind i2, var& oVar, ind iO) const
        {
            Vec v;
            int n = iVar2.size(), t = oVar.atype();
            for (int i=0; i<n; i++) v.push_back(ref::num(iVar1.at(i1 + i)));
            for (int i=0; i<n; i++) v.push_back(ref::num(iVar2.at(i2 + i)));
            called(v);
            for (int i=0; i<n; i++) oVar.at(iO + i) = ref::scalar(t, two(v[i], v[n + i]));
        }
    };
    Vec many(const std::vector<Vec>& in)
    {
        Vec r = in[0];
        for (size_t j=1; j<in.size(); j++) r = mix(r, in[j]);
        return r;
    }
    class Many : public NaryFunctor
    {
    public:
        Many(int d, int n) : mN(n) { mDim = d; }
    protected:
        void vector(var iVar, var& oVar) const
        {
            std::vector<Vec> in;
            Vec all;
            MC_CHECK((int)iVar.size() == mN, "count", "a functor of %d arguments is given %s", mN, ref::show(iVar).c_str());
            for (int j=0; j<iVar.size(); j++)
            {
                in.push_back(read(iVar[j]));
                all.insert(all.end(), in.back().begin(), in.back().end());
            }
            called(all);
            Vec r = many(in);
            if ((long)oVar.type() != TYPE_ARRAY) oVar = single((int)(long)oVar.type(), r[0]);
            else write(oVar, r);
        }
    private:
        int mN;
    };

    // Every element different
    cd val(int t, int i)
    {
        if (t == TYPE_CHAR) return cd(1 + i % 20);
        if (t >= TYPE_CFLOAT) return cd(i + 1, -i);
        return cd(i + 1);
    }
    const int types[] = { TYPE_FLOAT, TYPE_INT, TYPE_CDOUBLE, TYPE_CHAR, TYPE_LONG, TYPE_DOUBLE, TYPE_CFLOAT };
    Arr make(int t, const Shape& s, int how, int seed = 0) { return ref::make(t, s, how, [=](int i){ return val(t, i + seed); }); }

    /*
     * One call of a functor.  act performs it on the storage given; in is the
     * list of inputs, blocks what it should be called with in each, and want
     * the outputs at their positions
     */
    struct Want
    {
        std::vector<Vec> calls;
        std::vector<std::pair<int, Vec>> out;      // offset, values; for each call
        Shape shape;
        bool fails = false;
    };
    void judge(const std::string& what, std::vector<Arr*> in, Arr* out, const Want& w, bool threw, bool boom, const var& result, int t)
    {
        if (w.fails)
        {
            MC_CHECK(threw && !boom, "accepted", "%s does not throw, result %s", what.c_str(), ref::show(result).c_str());
            MC_CHECK(gCalls.empty(), "called", "%s is called %d times before it throws", what.c_str(), (int)gCalls.size());
        }
        else
        {
            bool expectBoom = gThrowAt >= 0 && gThrowAt < (int)w.calls.size();
            MC_CHECK(threw == expectBoom && boom == expectBoom, "throw", "%s %s", what.c_str(), threw ? "throws" : "does not throw");
            if (!expectBoom)
            {
                auto a = gCalls, b = w.calls;
                auto less = [](const Vec& x, const Vec& y) { return std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end(),
                    [](cd p, cd q){ return p.real() != q.real() ? p.real() < q.real() : p.imag() < q.imag(); }); };
                std::sort(a.begin(), a.end(), less);
                std::sort(b.begin(), b.end(), less);
                std::string s;
                for (auto& c : gCalls) s += ref::list(c) + " ";
                MC_CHECK(a == b, "calls", "%s is called with %s", what.c_str(), s.c_str());
            }
        }
        // Outputs that were calculated
        Vec got = out ? read(out->base) : Vec();
        if (out && !w.fails)
        {
            Vec want = out->was;
            for (size_t k=0; k<w.out.size(); k++)
            {
                bool done = std::find(gCalls.begin(), gCalls.end(), w.calls[k]) != gCalls.end();
                if (gThrowAt >= 0 && gCalls.size() && gCalls.back() == w.calls[k] && gThrowAt < (int)w.calls.size()) done = false;
                if (done)
                    for (size_t i=0; i<w.out[k].second.size(); i++)
                        want[out->off + w.out[k].first + i] = ref::as(t, w.out[k].second[i]);
            }
            MC_CHECK(got == want, "output", "%s gives %s, should be %s", what.c_str(), ref::list(got).c_str(), ref::list(want).c_str());
        }
        else if (out)
            MC_CHECK(got == out->was, "changed", "%s changes the output to %s", what.c_str(), ref::list(got).c_str());
        else if (!threw)
        {
            Vec r = read(result), want(r.size(), cd(-77));
            int n = ref::prod(w.shape);
            MC_CHECK((int)r.size() == n, "shape", "%s gives %s", what.c_str(), ref::show(result).c_str());
            if (n && (w.shape.size() > 1 || result.view()))
                MC_CHECK(ref::shaped(result, w.shape), "shape", "%s gives %s", what.c_str(), ref::show(result).c_str());
            for (size_t k=0; k<w.out.size(); k++)
                for (size_t i=0; i<w.out[k].second.size(); i++)
                    want[w.out[k].first + i] = ref::as(t, w.out[k].second[i]);
            for (size_t i=0; i<r.size(); i++)
                MC_CHECK(want[i] == cd(-77) || r[i] == want[i], "output", "%s gives %s, should be %s", what.c_str(), ref::list(r).c_str(), ref::list(want).c_str());
        }
        for (Arr* a : in)
            if (a != out) ref::unchanged(*a, "changed", what);
        mc::step(gCalls.size() + 1);
        mc::state(what + std::to_string(gCalls.size()));
    }
    // The last bits of a shape
    Shape tail(const Shape& s, int d) { return Shape(s.end() - d, s.end()); }
    std::vector<Vec> blocks(const Arr& a, int d)
    {
        int n = ref::prod(tail(a.s, d));
        std::vector<Vec> r;
        for (int i=0; n && i<a.n/n; i++)
        {
            Vec v;
            for (int j=0; j<n; j++) v.push_back(a.get(i * n + j));
            r.push_back(v);
        }
        return r;
    }

    template<class F> void attempt(bool& threw, bool& boom, F f)
    {
        gCalls.clear();
        Block::gShapes.clear();
        threw = boom = false;
        try { f(); }
        catch (Boom&) { threw = boom = true; }
        catch (mc::Skip&) { throw; }
        catch (mc::Violation&) { throw; }
        catch (mc::Pruned&) { throw; }
        catch (std::exception&) { threw = true; }
    }

    void unary(int mdim, int maxd, int maxn, int ntypes, bool faults)
    {
        static std::map<std::pair<int, int>, std::vector<Shape>> cache;
        auto& all = cache[{ maxd, maxn }];
        if (all.empty()) all = ref::shapes(1, maxd, 0, maxn);
        int t = types[mc::choose(ntypes)];
        const Shape& s = mc::pick(all);
        int how = mc::choose(2), mode = mc::choose(4), form = mdim ? mc::choose(3) : 0;
        // The view of a vector is the same as the vector
        if (how && ref::prod(s) == 0) mc::prune();
        // A single complex number is not an array
        if (!how && t == TYPE_CDOUBLE && ref::prod(s) == 1 && s.size() == 1) mc::prune();
        Arr a = make(t, s, how);
        int n = mdim <= (int)s.size() ? ref::prod(tail(s, mdim)) : 0;
        Want w;
        w.shape = s;
        w.fails = mdim > (int)s.size();
        if (!w.fails) w.calls = blocks(a, mdim);
        for (size_t k=0; k<w.calls.size(); k++)
            w.out.push_back({ (int)k * n, mdim ? rev(w.calls[k]) : Vec{ one(w.calls[k][0]) } });
        int extra = form == 2 ? 1 : 0;
        if (extra)
        {
            // An output with longer rows
            if (mode != 0 || mdim != 1 || a.n == 0) mc::prune();
            w.shape.back()++;
            for (size_t k=0; k<w.out.size(); k++) w.out[k].first = k * (n + 1);
        }
        gThrowAt = faults ? mc::range(0, w.calls.size()) : -1;
        Scalar f0;
        Block f1(mdim, form == 1, extra);
        const UnaryFunctor& f = mdim ? (const UnaryFunctor&)f1 : f0;
        std::string what = "functor of dimension " + std::to_string(mdim) + " of " + ref::show(a.v) + " mode " + std::to_string(mode) + " form " + std::to_string(form);
        MC_NOTE("%s, throw at %d", what.c_str(), gThrowAt);
        Arr o;
        Arr* out = 0;
        if (mode == 1) out = &a;
        if (mode == 2) { o = make(t, s, 1, 50); out = &o; }
        if (mode == 3)
        {
            // Of the wrong size
            if (a.n == 0 && !w.fails) mc::prune();
            Shape x = s;
            x.back() += 2;
            if (mdim > 1 && (int)s.size() > 1 && s[s.size()-2] == 0) mc::prune();
            o = make(t, x, 1, 50);
            out = &o;
            if (o.n == a.n) mc::prune();
            // Longer rows are for the functor to fill
            if (mdim == 1) mc::prune();
            if (mdim && !w.fails) mc::prune();
            w.fails = true;
        }
        for (int again=0; again<2; again++)
        {
            bool threw, boom;
            var r;
            attempt(threw, boom, [&]{ if (out) r = f(a.v, out->v); else r = f(a.v); });
            judge(what, { &a }, out, w, threw, boom, r, t);
            if (!threw && mdim)
                for (auto& b : Block::gShapes) MC_CHECK(b == tail(s, mdim), "shape", "%s is given %s", what.c_str(), ref::str(b).c_str());
            if (!boom) break;
            // Then without the exception
            gThrowAt = -1;
            if (out == &a) break;
            o.was = read(o.base);
        }
    }
    // A single value
    void single0()
    {
        int t = types[mc::choose(7)];
        gThrowAt = mc::choose(3) - 1;
        int mode = mc::choose(4);
        Scalar f;
        var holder = ref::array(t, { val(t, 0), val(t, 1), val(t, 2) });
        var v = ref::scalar(t, val(t, 1)), o = ref::scalar(t, val(t, 5)), r;
        std::string was = ref::show(v);
        MC_NOTE("%s mode %d", was.c_str(), mode);
        bool threw, boom;
        attempt(threw, boom, [&]{
            switch (mode)
            {
            case 0: r = f(v); break;
            case 1: r = f(v, v); break;
            case 2: r = f(v, o); break;
            case 3: { var e = holder[1]; r = f(e, e); } break;
            }
        });
        mc::step();
        MC_CHECK(boom == (gThrowAt == 0) && boom == threw, "throw", "%s %s", was.c_str(), threw ? "throws" : "does not throw");
        MC_CHECK(gCalls.size() == 1 && gCalls[0][0] == val(t, 1), "calls", "for %s called %d times", was.c_str(), (int)gCalls.size());
        cd want = ref::as(t, one(val(t, 1)));
        if (!threw) MC_CHECK(ref::num(r) == want, "output", "%s gives %s", was.c_str(), ref::show(r).c_str());
        MC_CHECK(ref::num(v) == (mode == 1 && !threw ? want : val(t, 1)), "changed", "%s becomes %s", was.c_str(), ref::show(v).c_str());
        MC_CHECK(ref::num(o) == (mode == 2 && !threw ? want : val(t, 5)), "changed", "the output becomes %s", ref::show(o).c_str());
        Vec h = { val(t, 0), mode == 3 && !threw ? want : val(t, 1), val(t, 2) };
        MC_CHECK(read(holder) == h, "changed", "the array becomes %s", ref::show(holder).c_str());
    }

    // Nested arrays, in place
    struct Tree { std::vector<Tree> sub; cd val; bool leaf = false, numeric = false; };
    Tree grow(int depth, int& budget, int& next)
    {
        Tree t;
        int k = depth ? mc::choose(3) : 0;
        if (budget <= 0) k = 0;
        if (k == 0) { t.leaf = true; t.val = cd(++next); return t; }
        int n = mc::range(1, 2);
        t.numeric = k == 2;
        for (int i=0; i<n; i++)
        {
            if (t.numeric) { Tree l; l.leaf = true; l.val = cd(++next); t.sub.push_back(l); }
            else { budget--; t.sub.push_back(grow(depth - 1, budget, next)); }
        }
        return t;
    }
    var build(const Tree& t)
    {
        var v;
        if (t.leaf) return var((int)t.val.real());
        if (t.numeric) { Vec x; for (auto& s : t.sub) x.push_back(s.val); return ref::array(TYPE_INT, x); }
        v.resize(t.sub.size());
        for (size_t i=0; i<t.sub.size(); i++) v.at(i) = build(t.sub[i]);
        return v;
    }
    int leaves(const Tree& t) { int n = t.leaf; for (auto& s : t.sub) n += leaves(s); return n; }
    void applyTree(Tree& t, const std::vector<Vec>& calls)
    {
        if (t.leaf && std::find(calls.begin(), calls.end(), Vec{ t.val }) != calls.end()) t.val = one(t.val);
        for (auto& s : t.sub) applyTree(s, calls);
    }
    void nested(int depth, int size)
    {
        int budget = size, next = 0;
        Tree t = grow(depth, budget, next);
        if (t.leaf) mc::prune();
        var v = build(t);
        std::string was = ref::show(v);
        int n = leaves(t);
        gThrowAt = mc::range(-1, n - 1);
        MC_NOTE("%s throw at %d", was.c_str(), gThrowAt);
        Scalar f;
        bool threw, boom;
        var r;
        attempt(threw, boom, [&]{ r = f(v, v); });
        MC_CHECK(threw == boom && threw == (gThrowAt >= 0), "throw", "%s %s", was.c_str(), threw ? "throws" : "does not throw");
        auto calls = gCalls;
        for (size_t i=0; i<calls.size(); i++) for (size_t j=0; j<i; j++)
            MC_CHECK(calls[i] != calls[j], "calls", "%s: called twice with %s", was.c_str(), ref::list(calls[i]).c_str());
        if (threw) calls.pop_back();
        else MC_CHECK((int)calls.size() == n, "calls", "%s: called %d times", was.c_str(), (int)calls.size());
        applyTree(t, calls);
        std::string want = ref::show(build(t)), got = ref::show(v);
        MC_CHECK(want == got, "output", "%s becomes %s, should be %s", was.c_str(), got.c_str(), want.c_str());
        mc::step(n);
        mc::state(was);
    }

    void binary(int maxd, int maxn, int ntypes, bool faults)
    {
        static std::map<std::pair<int, int>, std::vector<Shape>> cache;
        auto& all = cache[{ maxd, maxn }];
        if (all.empty()) all = ref::shapes(0, maxd, 0, maxn);
        int t = types[mc::choose(ntypes)], mdim = mc::choose(3);
        // The dimensions in common, and the others
        Shape c = mc::pick(all), d1, d2;
        if ((int)c.size() + mdim > 3 || (int)c.size() + mdim < 1) mc::prune();
        for (int i=0; i<mdim; i++) { d1.push_back(mc::range(1, 2)); }
        int same = mc::choose(5), mdim2 = mdim;
        d2 = d1;
        // The second operand can have blocks of another dimension
        if (same == 3) { d2.push_back(2); mdim2++; }
        if (same == 4) { if (!mdim || (int)c.size() + mdim < 2) mc::prune(); d2.pop_back(); mdim2--; }
        if (same && mdim == 0 && c.empty()) mc::prune();
        bool mismatch = false;
        Shape c2 = c;
        if (same == 1) { if (!mdim) mc::prune(); d2.back()++; }
        if (same == 2) { if (c.empty()) mc::prune(); c2[mc::choose(c2.size())]++; mismatch = true; }
        auto cat = [](Shape a, const Shape& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
        int mode = mc::choose(5), how = mc::choose(2);
        Arr a = make(t, cat(c, d1), ref::prod(c) ? how : 0), b = make(t, cat(c2, d2), ref::prod(c2) ? how : 0, 7), o;
        Arr* out = 0;
        if (mode == 1) out = &a;
        if (mode == 2) { o = make(t, a.s, 1, 50); out = &o; }
        if (mode == 3) { if (same) mc::prune(); out = &b; }
        if (mode == 4) { b = make(types[(mc::choose(2) + 1 + std::find(types, types + 7, t) - types) % 7], b.s, how, 7); }
        Want w;
        w.shape = a.s;
        w.fails = mismatch || mode == 4;
        auto b1 = blocks(a, mdim), b2 = blocks(b, mdim2);
        if (!w.fails)
            for (size_t k=0; k<b1.size(); k++)
            {
                Vec v = b1[k];
                v.insert(v.end(), b2[k].begin(), b2[k].end());
                w.calls.push_back(v);
                w.out.push_back({ (int)(k * b1[k].size()), mix(b1[k], b2[k]) });
            }
        gThrowAt = faults ? mc::range(0, w.calls.size()) : -1;
        Pair f(mdim);
        std::string what = "pairs of dimension " + std::to_string(mdim) + " of " + ref::show(a.v) + " and " + ref::show(b.v) + " mode " + std::to_string(mode);
        MC_NOTE("%s, throw at %d", what.c_str(), gThrowAt);
        bool threw, boom;
        var r;
        attempt(threw, boom, [&]{ if (out) r = f(a.v, b.v, out->v); else r = f(a.v, b.v); });
        judge(what, { &a, &b }, out, w, threw, boom, r, t);
    }

    void arithmetic(int maxd, int maxn, int ntypes, bool faults)
    {
        static std::map<std::pair<int, int>, std::vector<Shape>> cache;
        auto& all = cache[{ maxd, maxn }];
        if (all.empty()) all = ref::shapes(1, maxd, 0, maxn);
        int t = types[mc::choose(ntypes)];
        if (t == TYPE_CDOUBLE) mc::prune();
        const Shape& s = mc::pick(all);
        int d = mc::range(0, s.size() + 1), mode = mc::choose(4), how = mc::choose(2);
        Arr a = make(t, s, ref::prod(s) ? how : 0), b, o;
        bool large = d > (int)s.size();
        Shape bs = large ? s : tail(s, d);
        if (large) bs.insert(bs.begin(), 2);
        bool scalar = d == 0;
        b = make(t, scalar ? Shape{ 1 } : bs, how, 7);
        if (scalar && how) b.v = ref::scalar(t, b.get(0));
        // Or a number of another type
        if (!scalar && ref::prod(bs) == 0) mc::prune();
        Arr* out = 0;
        if (mode == 1) out = &a;
        if (mode == 2) { o = make(t, s, 1, 50); out = &o; }
        if (mode == 3)
        {
            // An output of the wrong size; blocks of another size are for the
            // functor to judge
            Shape x = s;
            if (d >= (int)s.size()) mc::prune();
            x[0]++;
            o = make(t, x, 1, 50);
            if (o.n == a.n || a.n == 0) mc::prune();
            out = &o;
        }
        Want w;
        w.shape = s;
        w.fails = (large && ref::prod(bs) != 1) || mode == 3;
        if (large && ref::prod(bs) == 1) w.fails = true;
        int n = scalar || ref::prod(bs) == 1 ? 1 : ref::prod(bs);
        bool one = ref::prod(bs) == 1 && (int)bs.size() == 1;
        if (!w.fails)
            for (int k=0; k<a.n/n; k++)
            {
                Vec v, r;
                for (int i=0; i<n; i++) { v.push_back(a.get(k * n + i)); r.push_back(two(a.get(k * n + i), b.get(i))); }
                for (int i=0; i<n; i++) v.push_back(b.get(i));
                w.calls.push_back(v);
                w.out.push_back({ k * n, r });
            }
        (void)one;
        gThrowAt = faults ? mc::range(0, w.calls.size()) : -1;
        Arith f;
        std::string what = "arithmetic of " + ref::show(a.v) + " and " + ref::show(b.v) + " mode " + std::to_string(mode);
        MC_NOTE("%s, throw at %d", what.c_str(), gThrowAt);
        bool threw, boom;
        var r;
        attempt(threw, boom, [&]{ if (out) r = f(a.v, b.v, out->v); else r = f(a.v, b.v); });
        judge(what, { &a, &b }, out, w, threw, boom, r, t);
    }

    void nary(int maxd, int maxn, int ntypes, bool faults)
    {
        static std::map<std::pair<int, int>, std::vector<Shape>> cache;
        auto& all = cache[{ maxd, maxn }];
        if (all.empty()) all = ref::shapes(0, maxd, 0, maxn);
        int t = types[mc::choose(ntypes)], mdim = mc::choose(3), n = mc::range(1, 3);
        Shape c = mc::pick(all);
        if ((int)c.size() + mdim > 3 || (int)c.size() + mdim < 1) mc::prune();
        std::vector<Arr> a(n);
        bool mixed = n > 1 && mc::flip();
        std::vector<int> bdim;
        int bad = mc::choose(n + 1), how = mc::choose(2);
        for (int j=0; j<n; j++)
        {
            Shape s = c;
            // Operands can have blocks of different dimensions
            int bd = j && mixed ? (mdim + j) % 3 : mdim;
            if ((int)c.size() + bd < 1) mc::prune();
            for (int i=0; i<bd; i++) s.push_back(1 + (i + j) % 2);
            bdim.push_back(bd);
            if (bad && j == bad - 1)
            {
                if (c.empty() || ref::prod(c) == 0 || j == 0) mc::prune();
                s[mc::choose(c.size())]++;
            }
            a[j] = make(t, s, ref::prod(s) ? how : 0, j * 6);
        }
        int mode = mc::choose(3);
        Arr o;
        Arr* out = 0;
        if (mode == 1) out = &a[0];
        if (mode == 2) { o = make(t, a[0].s, 1, 50); out = &o; }
        var args;
        args.resize(n);
        for (int j=0; j<n; j++) args.at(j) = a[j].v;
        Want w;
        w.shape = a[0].s;
        w.fails = bad;
        if (!w.fails)
            for (size_t k=0; k<blocks(a[0], mdim).size(); k++)
            {
                Vec v;
                std::vector<Vec> in;
                for (int j=0; j<n; j++) { in.push_back(blocks(a[j], bdim[j])[k]); v.insert(v.end(), in.back().begin(), in.back().end()); }
                w.calls.push_back(v);
                w.out.push_back({ (int)(k * in[0].size()), many(in) });
            }
        gThrowAt = faults ? mc::range(0, w.calls.size()) : -1;
        Many f(mdim, n);
        std::string what = "functor of dimension " + std::to_string(mdim) + " of " + ref::show(args) + " mode " + std::to_string(mode);
        MC_NOTE("%s, throw at %d", what.c_str(), gThrowAt);
        bool threw, boom;
        var r;
        attempt(threw, boom, [&]{ if (out) r = f(args, out->v); else r = f(args); });
        std::vector<Arr*> in;
        for (auto& x : a) in.push_back(&x);
        judge(what, in, out, w, threw, boom, r, t);
    }

    // Those that do not say how to do it
    class NoUnary : public UnaryFunctor { public: NoUnary(int d) { mDim = d; } };
    class NoBinary : public BinaryFunctor { public: NoBinary(int d) { mDim = d; } };
    class NoArith : public ArithmeticFunctor {};
    class NoNary : public NaryFunctor { public: NoNary(int d) { mDim = d; } };
    int gScalar;
    class NoAlloc : public NaryFunctor
    {
    public:
        NoAlloc(int d) { mDim = d; }
    protected:
        void scalar(const var&, var& oVar) const { gScalar++; if (oVar.atype() == TYPE_FLOAT) oVar(0) = 7.0f; }
    };
    class WithAlloc : public NoAlloc
    {
    public:
        WithAlloc(int d) : NoAlloc(d) {}
    protected:
        var alloc(var) const { return view({ 3 }, 1.0f); }
    };
    void undefined()
    {
        int k = mc::choose(6), d = mc::choose(3), mode = mc::choose(2), s = mc::choose(3);
        Arr a = make(TYPE_FLOAT, s == 0 ? Shape{ 2 } : s == 1 ? Shape{ 2, 2 } : Shape{ 1 }, 1), b = make(TYPE_FLOAT, a.s, 0);
        var args, r;
        args.resize(2);
        args.at(0) = a.v;
        args.at(1) = b.v;
        if (k == 2 && d) mc::prune();
        mc::step();
        if (k >= 4)
        {
            // There is nothing to allocate from, unless the functor says how
            gScalar = 0;
            var none;
            bool ok = k == 5;
            bool threw = ref::throws([&]{
                NoAlloc n(d);
                WithAlloc w(d);
                NoAlloc& f = ok ? w : n;
                r = s == 0 ? f() : s == 1 ? f(nil) : f(none);
            });
            MC_CHECK(threw == !ok, "undefined", "functor of nothing %s an allocator: %s", ok ? "with" : "without", threw ? "throws" : ref::show(r).c_str());
            MC_CHECK(gScalar == (ok ? 1 : 0), "calls", "functor of nothing %s an allocator is called %d times", ok ? "with" : "without", gScalar);
            if (ok)
                MC_CHECK(r.size() == 3 && r.atype() == TYPE_FLOAT && r.at(0).get<float>() == 7.0f, "result", "functor of nothing gives %s", ref::show(r).c_str());
            return;
        }
        bool threw = ref::throws([&]{
            switch (k)
            {
            case 0: { NoUnary f(d); if (mode) f(a.v, b.v); else r = f(a.v); break; }
            case 1: { NoBinary f(d); if (mode) f(a.v, a.v, b.v); else r = f(a.v, b.v); break; }
            case 2: { NoArith f; if (mode) f(a.v, 2.0f, b.v); else r = f(a.v, 2.0f); break; }
            case 3: { NoNary f(d); if (mode) f(args, b.v); else r = f(args); break; }
            }
        });
        MC_CHECK(threw, "undefined", "functor %d of dimension %d without operation gives %s", k, d, ref::show(r).c_str());
        ref::unchanged(a, "changed", "functor without operation");
        ref::unchanged(b, "changed", "functor without operation");
    }

    // Long arrays, and many rows
    void sizes()
    {
        static const std::vector<int> ns = ref::bigSizes(1025);
        int t = mc::pick(types), n = mc::pick(ns), f = mc::choose(6);
        if (n < 2 || f == 3) mc::prune();
        std::string what = "functor " + std::to_string(f) + " of " + std::to_string(n) + " of " + ref::tname(t);
        MC_NOTE("%s", what.c_str());
        gCalls.clear();
        gThrowAt = -1;
        Vec x, want;
        std::vector<Vec> calls;
        int k = f == 0 || f == 3 ? 1 : f == 1 || f == 4 ? 3 : n;       // in a row
        int rows = f == 2 || f == 5 ? 3 : n;
        for (int i=0; i<k*rows; i++) x.push_back(cd(1 + i % 20));
        Vec y = x;
        std::reverse(y.begin(), y.end());
        for (int r=0; r<rows; r++)
        {
            Vec in(x.begin() + r*k, x.begin() + (r+1)*k), o;
            if (f == 0) o = { one(in[0]) };
            else if (f < 3) o = rev(in);
            else
            {
                Vec z(y.begin() + r*k, y.begin() + (r+1)*k);
                o = mix(in, z);
                in.insert(in.end(), z.begin(), z.end());
            }
            calls.push_back(in);
            want.insert(want.end(), o.begin(), o.end());
        }
        var a = ref::array(t, x), b = ref::array(t, y), v = f == 0 ? a : a.view({ rows, k }), r;
        mc::step(n);
        if (f == 0) r = Scalar()(v);
        else if (f < 3) r = Block(1, false, 0)(v);
        else r = Pair(1)(v, b.view({ rows, k }));
        MC_CHECK(gCalls.size() == calls.size(), "many calls", "%s is called %zu times", what.c_str(), gCalls.size());
        for (size_t i=0; i<calls.size(); i++) MC_CHECK(gCalls[i] == calls[i], "many calls", "%s: call %zu is with %s", what.c_str(), i, ref::list(gCalls[i]).c_str());
        Vec g = read(r);
        MC_CHECK(g.size() == want.size() && (long)r.atype() == t, "many results", "%s has %zu", what.c_str(), g.size());
        for (size_t i=0; i<g.size(); i++) MC_CHECK(g[i] == ref::as(t, want[i]), "many results", "%s: result %zu is %s", what.c_str(), i, ref::fmt(g[i]).c_str());
        MC_CHECK(read(a) == x && read(b) == y, "many operands", "%s changes what it is given", what.c_str());
        mc::state(what);
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::bound("dimensions", 3);
    mc::bound("size", 3);
    int ty = th ? 7 : 4;
    mc::add("elements", [=]{ unary(0, 3, 3, ty, false); });
    mc::add("vectors", [=]{ unary(1, 3, 3, ty, false); });
    mc::add("matrices", [=]{ unary(2, 3, 3, ty, false); });
    mc::add("tensors", [=]{ unary(3, 3, th ? 3 : 2, ty, false); });
    mc::add("elements throw", [=]{ unary(0, 3, th ? 3 : 2, th ? 7 : 3, true); });
    mc::add("vectors throw", [=]{ unary(1, 3, th ? 3 : 2, th ? 7 : 3, true); });
    mc::add("matrices throw", [=]{ unary(2, 3, th ? 3 : 2, th ? 7 : 3, true); });
    mc::add("single", single0);
    mc::add("nested", [=]{ nested(3, th ? 5 : 4); });
    mc::add("binary", [=]{ binary(2, 3, ty, false); });
    mc::add("binary throw", [=]{ binary(2, th ? 3 : 2, th ? 7 : 2, true); });
    mc::add("arithmetic", [=]{ arithmetic(3, 3, ty, false); });
    mc::add("arithmetic throw", [=]{ arithmetic(2, th ? 3 : 2, th ? 7 : 2, true); });
    mc::add("nary", [=]{ nary(2, th ? 3 : 2, ty, false); });
    mc::add("nary throw", [=]{ nary(2, 2, th ? 7 : 2, true); });
    mc::add("undefined", undefined);
    mc::add("leaks elements", []{ unary(0, 2, 2, 3, true); }, mc::LEAK);
    mc::add("leaks vectors", []{ unary(1, 2, 2, 3, true); }, mc::LEAK);
    mc::add("leaks binary", []{ binary(1, 2, 2, true); }, mc::LEAK);
    mc::add("leaks nary", []{ nary(1, 2, 2, true); }, mc::LEAK);
    mc::add("leaks nested", []{ nested(3, 3); }, mc::LEAK);
    mc::add("sizes", sizes);
    return mc::run(argc, argv, "C31", "model_checking");
}
