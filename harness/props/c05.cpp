// C05: scalar arithmetic and casts against C++ itself.
#include "ref.h"
#include <variant>
#include <lube/math.h>
using namespace ref;
using namespace libube;

namespace
{
    typedef std::variant<char, int, long, float, double, cf, cd> Num;
    const int types[] = { TYPE_CHAR, TYPE_INT, TYPE_LONG, TYPE_FLOAT,
                          TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE };

    const std::vector<Num>& values(int t)
    {
        static const std::vector<Num> c = { (char)0, (char)1, (char)-3, (char)7, (char)'a', (char)100 };
        static const std::vector<Num> i = { 0, 1, -7, 3, 1001, -40000 };
        static const std::vector<Num> l = { 0L, 1L, -7L, 2L, (1L << 53) + 1, -(1L << 40) - 5 };
        static const std::vector<Num> f = { 0.0f, 1.0f, -2.5f, 0.1f, 16777216.0f, 99.75f };
        static const std::vector<Num> d = { 0.0, 1.0, -2.5, 0.1, 1e10, 16777217.0 };
        static const std::vector<Num> x = { cf(0,0), cf(1,0), cf(0,1), cf(-2,3), cf(0.5f,-0.1f), cf(7,0) };
        static const std::vector<Num> z = { cd(0,0), cd(1,0), cd(0,1), cd(-2,3), cd(0.1,-0.5), cd(9,0) };
        switch (t)
        {
        case TYPE_CHAR: return c;
        case TYPE_INT: return i;
        case TYPE_LONG: return l;
        case TYPE_FLOAT: return f;
        case TYPE_DOUBLE: return d;
        case TYPE_CFLOAT: return x;
        }
        return z;
    }
    var mk(const Num& n) { return std::visit([](auto v) { return var(v); }, n); }

    template<class T> struct Cx { static const bool value = false; };
    template<class T> struct Cx<std::complex<T>> { static const bool value = true; };

    // Is the conversion defined by C++?
    template<class T> bool castable(const Num& n)
    {
        return std::visit([](auto v) -> bool {
            typedef decltype(v) S;
            double r;
            if constexpr (Cx<S>::value) r = v.real(); else r = v;
            if constexpr (Cx<S>::value || std::is_floating_point<S>::value)
            {
                if constexpr (std::is_same<T, char>::value) return r > -129 && r < 128;
                if constexpr (std::is_same<T, int>::value) return r > -2147483649. && r < 2147483648.;
                if constexpr (std::is_same<T, long>::value) return fabs(r) < 9e18;
            }
            return true;
        }, n);
    }
    template<class T> T to(const Num& n)
    {
        return std::visit([](auto v) -> T {
            typedef decltype(v) S;
            if constexpr (Cx<S>::value && Cx<T>::value)
                return T(v.real(), v.imag());
            else if constexpr (Cx<S>::value)
                return static_cast<T>(v.real());
            else if constexpr (Cx<T>::value)
                return T(static_cast<typename T::value_type>(v), 0);
            else
                return static_cast<T>(v);
        }, n);
    }
    template<class F> auto dispatch(int t, F f)
    {
        switch (t)
        {
        case TYPE_CHAR: return f((char)0);
        case TYPE_INT: return f(0);
        case TYPE_LONG: return f(0L);
        case TYPE_FLOAT: return f(0.0f);
        case TYPE_DOUBLE: return f(0.0);
        case TYPE_CFLOAT: return f(cf(0));
        }
        return f(cd(0));
    }

    std::string text(const Num& n)
    {
        return std::visit([](auto v) -> std::string {
            typedef decltype(v) S;
            if constexpr (Cx<S>::value) return fmt(cd(v.real(), v.imag()));
            else if constexpr (std::is_integral<S>::value) return std::to_string((long)v);
            else return fmt(cd(v), false);
        }, n);
    }

    template<class R> bool near(R a, R b)
    {
        if (a != a || b != b) return a != a && b != b;
        if (a == b) return true;
        if (std::isinf(a) || std::isinf(b)) return false;
        return std::abs(a - b) <= 4 * std::numeric_limits<R>::epsilon()
            * std::max(std::abs(a), std::abs(b));
    }
    template<class T> bool equal(T a, T b)
    {
        if constexpr (Cx<T>::value) return near(a.real(), b.real()) && near(a.imag(), b.imag());
        else if constexpr (std::is_floating_point<T>::value) return near(a, b);
        else return a == b;
    }

    // Is v a single value of the type of n, equal to it?
    bool is(const var& v, const Num& n)
    {
        return std::visit([&](auto x) -> bool {
            typedef decltype(x) T;
            if constexpr (std::is_same<T, cd>::value)
            {
                if (!v.defined()) return false;
                if ((long)v.type() == TYPE_CDOUBLE) return equal(v.get<cd>(), x);
                return (long)v.type() == TYPE_ARRAY && v.atype<cd>() && v.size() == 1
                    && equal(v.at(0).template get<cd>(), x);
            }
            else
            {
                if (!v.defined() || (long)v.type() != (long)var(x).type()) return false;
                return equal(v.template get<T>(), x);
            }
        }, n);
    }

    // The result of an operation; false if C++ does not define it
    bool apply(int o, const Num& a, const Num& b, Num& r)
    {
        return std::visit([&](auto x) -> bool {
            typedef decltype(x) T;
            if (!castable<T>(b)) return false;
            T y = to<T>(b);
            if constexpr (std::is_integral<T>::value)
            {
                long q;
                if (o == 3 && y == 0) return false;
                if (o == 2 && __builtin_mul_overflow((long)x, (long)y, &q)) return false;
                if (o == 2 && std::is_same<T, int>::value && q != (int)q) return false;
            }
            switch (o)
            {
            case 0: r = (T)(x + y); break;
            case 1: r = (T)(x - y); break;
            case 2: r = (T)(x * y); break;
            case 3: r = (T)(x / y); break;
            }
            return true;
        }, a);
    }

    const char* opName[] = { "+", "-", "*", "/" };
    var binary(int o, const var& a, const var& b)
    {
        switch (o)
        { case 0: return a + b; case 1: return a - b; case 2: return a * b; }
        return a / b;
    }
    void compound(int o, var& a, const var& b)
    {
        switch (o)
        {
        case 0: a += b; break; case 1: a -= b; break;
        case 2: a *= b; break; case 3: a /= b; break;
        }
    }
    var functor(int o, const var& a, const var& b)
    {
        switch (o)
        { case 0: return add(a, b); case 1: return sub(a, b); case 2: return mul(a, b); }
        return libube::div(a, b);
    }
    void functor(int o, const var& a, const var& b, var& c)
    {
        switch (o)
        {
        case 0: add(a, b, c); break; case 1: sub(a, b, c); break;
        case 2: mul(a, b, c); break; case 3: libube::div(a, b, c); break;
        }
    }

    void arithmetic()
    {
        int ta = mc::pick(types), tb = mc::pick(types);
        const Num a = mc::pick(values(ta)), b = mc::pick(values(tb));
        int o = mc::choose(4);
        Num r;
        if (!apply(o, a, b, r)) return;
        int form = mc::choose(8);
        var x = mk(a), y = mk(b), z;
        std::string what = std::string(tname(ta)) + " " + text(a) + " " + opName[o]
            + " " + tname(tb) + " " + text(b);
        MC_NOTE("%s, form %d", what.c_str(), form);
        bool leftKept = true;
        var holderA = ref::array(ta, { cd(1), cd(2), cd(3) });
        var holderB = ref::array(tb, { cd(1), cd(2), cd(3) });
        var m;
        switch (form)
        {
        case 0: z = binary(o, x, y); break;
        case 1: compound(o, x, y); z = x; leftKept = false; break;
        case 2: z = functor(o, x, y); break;
        case 3: z = mk(values(ta)[3]); functor(o, x, y, z); break;
        case 4:          // elements of arrays
            holderA.at(1) = x; holderB.at(1) = y;
            z = binary(o, holderA.at(1), holderB.at(1));
            MC_CHECK(is(holderA.at(1), a), "left", "%s of elements changed the left one to %s",
                     what.c_str(), ref::show(holderA.at(1)).c_str());
            MC_CHECK(is(holderB.at(1), b), "right", "%s of elements changed the right one to %s",
                     what.c_str(), ref::show(holderB.at(1)).c_str());
            break;
        case 5:          // element of an array, in place
        {
            holderA.at(1) = x; holderB.at(1) = y;
            var e = holderA.at(1);
            compound(o, e, holderB.at(1));
            z = holderA.at(1).copy();
            MC_CHECK(is(holderB.at(1), b), "right", "%s= of elements changed the right one to %s",
                     what.c_str(), ref::show(holderB.at(1)).c_str());
            MC_CHECK(num(holderA.at(0)) == cd(1) && num(holderA.at(2)) == cd(3) &&
                     holderA.size() == 3, "neighbour", "%s= of elements changed others: %s",
                     what.c_str(), ref::show(holderA).c_str());
            break;
        }
        case 6:          // value in a map
        {
            m["k"] = x; m["l"] = y;
            var e = m["k"];
            compound(o, e, m["l"]);
            z = m["k"];
            if (ta == TYPE_CDOUBLE) leftKept = false;  // held as an array
            MC_CHECK(is(m["l"], b), "right", "%s= in a map changed the right operand to %s",
                     what.c_str(), ref::show(m["l"]).c_str());
            break;
        }
        case 7:          // holders of the value (singles are not shared)
        {
            var w = x;
            compound(o, w, y);
            z = w;
            if (ta == TYPE_CDOUBLE) leftKept = false;  // held as an array
            break;
        }
        }
        mc::step();
        MC_CHECK(is(z, r), "value", "%s is %s, should be %s (form %d)", what.c_str(),
                 ref::show(z).c_str(), text(r).c_str(), form);
        MC_CHECK(!leftKept || is(x, a), "left", "%s changed the left operand to %s",
                 what.c_str(), ref::show(x).c_str());
        MC_CHECK(is(y, b), "right", "%s changed the right operand to %s", what.c_str(),
                 ref::show(y).c_str());
        mc::state(what + char('0' + form));
    }

    // a op a, and with the operands exchanged in place
    void self()
    {
        int t = mc::pick(types);
        const Num a = mc::pick(values(t));
        int o = mc::choose(4), form = mc::choose(3);
        Num r;
        if (!apply(o, a, a, r)) return;
        if (std::holds_alternative<cf>(a) || std::holds_alternative<cd>(a))
            if (o == 3 && to<cd>(a) == cd(0)) return;
        MC_NOTE("%s %s %s self, form %d", tname(t), text(a).c_str(), opName[o], form);
        var x = mk(a);
        var arr = ref::array(t, { cd(1), cd(2) });
        arr.at(1) = x;
        var z;
        if (form == 0) { compound(o, x, x); z = x; }
        if (form == 1) { var e = arr.at(1), f = arr.at(1); compound(o, e, f); z = arr.at(1).copy(); }
        if (form == 2) { z = binary(o, x, x); MC_CHECK(is(x, a), "left", "operand changed"); }
        mc::step();
        MC_CHECK(is(z, r), "value", "%s %s %s= self is %s, should be %s", tname(t),
                 text(a).c_str(), opName[o], ref::show(z).c_str(), text(r).c_str());
        if (o == 0)
        {
            // Unary minus
            Num n;
            if (!apply(2, a, Num(-1), n)) return;
            var u = mk(a);
            var v = -u;
            MC_CHECK(is(v, n), "minus", "- %s %s is %s", tname(t), text(a).c_str(), ref::show(v).c_str());
            MC_CHECK(is(u, a), "minus", "unary minus changed its operand");
            var w = -arr.at(1);
        }
        mc::state(tname(t) + text(a) + char('0' + o) + char('0' + form));
    }

    // The right operand can be anything that can be cast
    void oddOperands()
    {
        int t = mc::pick(types);
        int k = mc::choose(7), o = mc::choose(4), form = mc::choose(3);
        const Num a = values(t)[3];
        var x = mk(a), y;
        Num b = 12;
        bool ok = false;
        switch (k)
        {
        case 0: y = "12"; ok = true; break;
        case 1: y = t == TYPE_CHAR ? " " : "x"; break;
        case 2: y = ""; break;
        case 3: y = var({1, 2}); break;
        case 4: y["k"] = 1; y["l"] = 2; break;
        case 5: y = var({"a", "b"}); break;
        case 6: y = var({1.0, 2.0}).view({2}, 0); break;
        }
        if (k == 0 && t == TYPE_CHAR) b = '1';       // a char is a char
        std::string before = ref::show(y);
        MC_NOTE("%s %s %s %s, form %d", tname(t), text(a).c_str(), opName[o], before.c_str(), form);
        Num r;
        apply(o, a, b, r);
        var z;
        bool threw = ref::throws([&] {
            if (form == 0) z = binary(o, x, y);
            if (form == 1) { compound(o, x, y); z = x; }
            if (form == 2) { var w = mk(a); functor(o, x, y, w); z = w; }
        });
        mc::step();
        MC_CHECK(threw != ok, "operand", "%s %s %s %s %s", tname(t), text(a).c_str(),
                 opName[o], before.c_str(), threw ? "throws" : ("is " + ref::show(z)).c_str());
        if (ok)
            MC_CHECK(is(z, r), "value", "%s %s %s %s is %s, should be %s", tname(t),
                     text(a).c_str(), opName[o], before.c_str(), ref::show(z).c_str(), text(r).c_str());
        if (!ok || form != 1)
            MC_CHECK(is(x, a), "left", "%s %s %s %s changed the left operand to %s",
                     tname(t), text(a).c_str(), opName[o], before.c_str(), ref::show(x).c_str());
        MC_CHECK(ref::show(y) == before, "right", "changed the right operand to %s",
                 ref::show(y).c_str());
        mc::state(before + tname(t) + char('0' + o));
    }

    template<class T> var castf(const var& v);
    template<> var castf<char>(const var& v) { return castChar(v); }
    template<> var castf<int>(const var& v) { return castInt(v); }
    template<> var castf<long>(const var& v) { return castLong(v); }
    template<> var castf<float>(const var& v) { return castFloat(v); }
    template<> var castf<double>(const var& v) { return castDouble(v); }
    template<> var castf<cf>(const var& v) { return castCFloat(v); }
    template<> var castf<cd>(const var& v) { return castCDouble(v); }

    void casts()
    {
        int ta = mc::pick(types), tb = mc::pick(types);
        int form = mc::choose(6);
        const Num a = mc::pick(values(ta));
        dispatch(tb, [&](auto t0) {
            typedef decltype(t0) T;
            if (!castable<T>(a)) return 0;
            T want = to<T>(a);
            Num wn = want;
            var x = mk(a);
            var arr = ref::array(ta, { cd(1), cd(2), cd(3) });
            arr.at(1) = x;
            MC_NOTE("cast %s %s to %s, form %d", tname(ta), text(a).c_str(), tname(tb), form);
            std::string before = ref::show(arr);
            auto bad = [&](std::string got) {
                mc::violate("cast", "%s %s cast to %s is %s, should be %s (form %d)",
                            tname(ta), text(a).c_str(), tname(tb), got.c_str(), text(wn).c_str(), form);
            };
            auto three = [&](var r) {
                // Each element of an array
                if ((long)r.type() != TYPE_ARRAY || (long)r.atype() != tb || r.size() != 3)
                    bad(ref::show(r));
                if (!is(r.at(1), wn) || num(r.at(0)) != cd(1) || num(r.at(2)) != cd(3))
                    bad(ref::show(r));
            };
            switch (form)
            {
            case 0: { T g = x.cast<T>(); if (!equal(g, want)) bad(text(Num(g))); break; }
            case 1: { T g = arr.at(1).cast<T>(); if (!equal(g, want)) bad(text(Num(g))); break; }
            case 2: { var r = castf<T>(x); if (!is(r, wn)) bad(ref::show(r)); break; }
            case 3:
            {
                if (ta == TYPE_CHAR) break;       // a string is converted
                var r = castf<T>(arr); three(r);
                if (ta != tb) break;
                r.at(0) = var(9);                  // independent of the original
                break;
            }
            case 4:
            {
                if (ta == TYPE_CHAR) break;
                var v = arr.view({3, 1}, 0);
                var r = castf<T>(v);
                if (r.dim() != 2 || r.shape(0) != 3 || r.shape(1) != 1) bad(ref::show(r));
                three(r);
                break;
            }
            case 5:
            {
                // An array of var stays one
                var w;
                w.resize(2);
                w.at(0) = x;
                w.at(1) = "q";
                var n;
                n.resize(2);
                n.at(0) = x; n.at(1) = x;
                var r = castf<T>(n);
                if (r.size() != 2 || !is(r.at(0), wn) || !is(r.at(1), wn)) bad(ref::show(r));
                if (!is(n.at(0), a)) bad("an array, but the original changed to " + ref::show(n));
                break;
            }
            }
            mc::step();
            MC_CHECK(is(x, a) && ref::show(arr) == before, "source",
                     "cast to %s changed %s %s to %s or %s", tname(tb), tname(ta),
                     text(a).c_str(), ref::show(x).c_str(), ref::show(arr).c_str());
            mc::state(tname(ta) + text(a) + tname(tb) + char('0' + form));
            return 0;
        });
    }

    void parse1(const std::string& s, int t)
    {
        dispatch(t, [&](auto t0) {
            typedef decltype(t0) T;
            std::istringstream is_(s);
            is_.imbue(std::locale::classic());
            T want;
            bool ok = (bool)(is_ >> want);
            MC_NOTE("%s to %s", mc::quote(s).c_str(), tname(t));
            var x = s.c_str();
            T got = T();
            bool threw = ref::throws([&] { got = x.cast<T>(); });
            mc::step();
            MC_CHECK(threw == !ok, "parse", "%s cast to %s %s", mc::quote(s).c_str(), tname(t),
                     threw ? "throws" : ("is " + text(Num(got))).c_str());
            if (ok)
                MC_CHECK(equal(got, want), "parse", "%s cast to %s is %s, should be %s",
                         mc::quote(s).c_str(), tname(t), text(Num(got)).c_str(), text(Num(want)).c_str());
            MC_CHECK(ref::show(x) == mc::quote(s), "source", "cast changed the string to %s",
                     ref::show(x).c_str());
            return 0;
        });
        mc::state(s + tname(t));
    }
    void parse(int len)
    {
        static const char al[] = "017-+.e x,(";
        int n = mc::range(0, len);
        std::string s;
        for (int i=0; i<n; i++) s += al[mc::choose(sizeof al - 1)];
        parse1(s, mc::pick(types));
    }
    void parseLong()
    {
        static const char* str[] = {
            "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807",
            "9223372036854775808", "99999999999999999999", "1e5", "1e400", "-1e400", "1e-400",
            "0x10", "inf", "nan", "3.14159265358979", "0.1", "1e+10", "000123", "(1,2)", "(1.5,-2)",
            "( 3 , 4 )", "(5)", "(1,2", "12 34", "\t7", "\n8", "16777217", "9007199254740993", "1.5.2",
            "0.000000000000000000001", "123456789.987654321" };
        parse1(mc::pick(str), mc::pick(types));
    }
}

int main(int argc, char** argv)
{
    mc::add("arithmetic", arithmetic);
    mc::add("self", self, mc::LEAK);
    mc::add("odd-operands", oddOperands, mc::LEAK);
    mc::add("casts", casts);
    mc::add("parse", []{ parse(mc::thorough() ? 6 : 5); });
    mc::add("parse-long", parseLong, mc::LEAK);
    mc::add("locale", []{ Foreign f; if (mc::choose(2)) parse(mc::thorough() ? 4 : 3); else parseLong(); });
    mc::bound("values_per_type", 6);
    mc::bound("string_length", mc::thorough() ? 6 : 5);
    return mc::run(argc, argv, "C05", "model_checking", {
        "operations that C++ leaves undefined (integer overflow and division by zero, out of range conversion of real numbers) are left out" });
}
