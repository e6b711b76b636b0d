// C40: an element of an array or map behaves as a variable of the same value.
#include "arr.h"
#include <functional>
#include <lube/math.h>
#include <lube/string.h>
#include <lube/dft.h>

using namespace libube;
using namespace ref;

namespace
{
    enum { CD = 9, VALUES = 22 };
    var value(int k)
    {
        var v;
        switch (k)
        {
        case 0: return v;
        case 1: return 'c';
        case 2: return 3;
        case 3: return "ab c";
        case 4: { static const int a[] = { 3, 1, 2 }; return var(3, a); }
        case 5: v = { "x", 1 }; return v;
        case 6: v["k"] = 1; v["ab c"] = "z"; return v;
        case 7: return ref::array(TYPE_FLOAT, { 1, 2, 3, 4, 5, 6 }).view({ 2, 2 }, 1);
        case 8: return 2.5;
        case CD: return cdouble(1, 2);
        case 10: return "";
        case 11: return "1";
        case 12: return 1L;
        case 13: return 1.5f;
        case 14: return cfloat(2, 1);
        case 15: return ref::array(TYPE_DOUBLE, { 2, 1, 4, 3 });
        case 16: return ref::array(TYPE_CDOUBLE, { 2, cdouble(1, 1) });
        case 17: v = { var({ 1.5, 2.5 }), var({ 3.5, 4.5 }) }; return v;
        case 18: { static const int a[] = { 7 }; return var(1, a); }
        case 19: { static const int a[] = { 1, 0, 1, 0 }; var b(4, a); return b.view({ 4 }); }
        case 20: v.array(); v.resize(0); return v;
        case 21: return ref::array(TYPE_DOUBLE, { 1, 2, 3, 4 }).view({ 2, 2 });
        }
        abort();
    }

    // The ways to have it
    enum { PLAIN, ELEMENT, ENTRY, DEEP, ENTRYOF, AT, RETURNED, KEY, HELD, NUMBER = HELD, VIEWED, HOLDINGS };
    const char* hname[] = { "variable", "element", "entry", "element of element", "element of entry", "at()", "returned", "key", "number in array", "number in view" };

    var pass(var v) { return v; }
    struct Held
    {
        int how;
        var v, box, in;          // v is, or refers to, the value
        std::string before;
        Held(const var& x, int how) : how(how)
        {
            switch (how)
            {
            case PLAIN: v = x; break;
            case ELEMENT: box = { "before", x, "after" }; break;
            case ENTRY: box["a"] = "before"; box["b"] = x; box["c"] = "after"; break;
            case DEEP: in = { "one", x }; box = { "before", in, "after" }; break;
            case ENTRYOF: in = { "one", x }; box["a"] = "before"; box["b"] = in; break;
            case AT: box = { "before", x, "after" }; break;
            case RETURNED: v = x; break;
            case KEY: if (!x.defined()) mc::prune(); box[x] = "entry"; break;
            case NUMBER: case VIEWED:
            {
                int t = stype(x);
                if (x.defined() && t == TYPE_ARRAY && x.atype<cdouble>() && x.size() == 1 && !x.view()) t = TYPE_CDOUBLE;
                if (!isNum(t)) mc::prune();
                box = ref::array(t, { 9, num(x), 9, 9 });
                if (how == VIEWED) { in = box; box = box.view({ 3 }, 1); }
                break;
            }
            }
            before = around();
        }
        // The value or reference, as handed to an operation
        var get()
        {
            switch (how)
            {
            case PLAIN: return v;
            case ELEMENT: return box[1];
            case ENTRY: return box["b"];
            case DEEP: return box[1][1];
            case ENTRYOF: return box["b"][1];
            case AT: return box.at(1);
            case RETURNED: return pass(v);
            case KEY: return box.key(0);
            case NUMBER: return box[1];
            case VIEWED: return box(0);
            }
            abort();
        }
        // What is around it
        std::string around()
        {
            switch (how)
            {
            case ELEMENT: case AT: return std::to_string(box.size()) + show(box[0]) + show(box[2]);
            case ENTRY: return std::to_string(box.size()) + show(box["a"]) + show(box["c"]) + show(box.key(1));
            case DEEP: return std::to_string(box.size()) + show(box[0]) + show(box[2]) + std::to_string(in.size()) + show(in[0]);
            case ENTRYOF: return std::to_string(box.size()) + show(box.key(0)) + show(box.key(1)) + show(box["a"]) + std::to_string(in.size()) + show(in[0]);
            case KEY: return std::to_string(box.size()) + show(box.at(0));
            case NUMBER: return std::to_string(box.size()) + show(box[0]) + show(box[2]) + show(box[3]);
            case VIEWED: return std::to_string(in.size()) + show(in[0]) + show(in[2]) + show(in[3]);
            }
            return "";
        }
    };

    typedef std::function<var(var&, var&)> Fn;
    // Those marked "array" differ for a single cdouble, which is stored as an
    // array, and an element of an array of them, which isn't
    struct Op { const char* name; Fn f; bool array = false; };
    std::string text(const var& v) { std::ostringstream s; s << v; return s.str(); }
    var all(std::initializer_list<int> l) { var r; r.resize(l.size()); int i = 0; for (int x : l) r.at(i++) = x; return r; }
    std::complex<double> cnum(const var& v) { return v.cast<cdouble>(); }

#define F(...) [](var& s, var& b) -> var { return __VA_ARGS__; }
#define G(...) [](var& s, var& b) -> var { __VA_ARGS__; return nil; }
    // Those of one value that don't change it
    const std::vector<Op> read1 = {
        { "size", F(all({ s.size(), s.dim(), s.offset(), s.view(), s.defined() })) },
        { "type", F((int)(long)s.type()), true },
        { "atype", F((int)(long)s.atype()) },
        { "typeStr", F(s.atypeStr()), true },
        { "print", F(text(s).c_str()) },
        { "copy", F(s.copy()) },
        { "allocate", F(s.copy(true).size()) },
        { "shape", F(s.shape()) },
        { "shape(0)", F(all({ s.shape(0), s.shape(-1), s.stride(0) })) },
        { "get int", F(stype(s) == TYPE_INT ? var(s.get<int>()) : var(0)) },
        { "str", F(s.atype<char>() && s.size() > 1 ? var(s.str()) : var(1)) },
        { "ptr", F(s.ptr<int>() ? 1 : 0) },
        { "cast char", F(s.cast<char>()) },
        { "cast int", F(s.cast<int>()) },
        { "cast double", F(s.cast<double>()) },
        { "cast cdouble", F(s.cast<cdouble>()) },
        { "negate", F(-s) },
        { "at 0", F(s.at(0)) },
        { "call 0", F(s.dim() > 1 ? s(0, 0) : s(0)) },
        { "call 1 0", F(s(1, 0)) },
        { "key 0", F(s.key(0)) },
        { "top", F(s.top()) },
        { "view", F(s.view({ 1, 1 })), true },
        { "view 2", F(s.view({ 2 })), true },
        { "subview", F(s.subview(1, 0)), true },
        { "sort", F(s.sort()) },
        { "len", F((int)(long)s.len()) },
        { "split", F(s.split()), true },
        { "split at", F(s.split("b")), true },
        { "join", F(s.join("-")) },
        { "toupper", F(libube::toupper(s)) },
        { "tolower", F(libube::tolower(s)) },
        { "strip", F(libube::strip(s)) },
        { "floor", F(libube::floor(s)) },
        { "sin", F(libube::sin(s)) },
        { "exp", F(libube::exp(s)) },
        { "sqrt", F(libube::sqrt(s)) },
        { "atan", F(libube::atan(s)) },
        { "real", F(libube::real(s)) },
        { "imag", F(libube::imag(s)) },
        { "abs", F(libube::abs(s)) },
        { "arg", F(libube::arg(s)) },
        { "norm", F(libube::norm(s)) },
        { "sum", F(libube::sum(s)) },
        { "asum", F(libube::asum(s)) },
        { "iamax", F(libube::iamax(s)) },
        { "transpose", F(libube::transpose(s)) },
        { "concatenate", F(libube::concatenate(s)) },
        { "roots", F(libube::roots(s)) },
        { "poly", F(libube::poly(s)), true },
        { "dft", F(DFT(4, 0.0)(s)) },
        { "idft", F(IDFT(4, 0.0)(s)) },
        { "range", F(s.defined() && isNum(stype(s)) && num(s).real() > 9 ? var(0) : range(s)) },
        { "irange", F(s.defined() && isNum(stype(s)) && num(s).real() > 9 ? var(0) : irange(s)) },
        { "error", F(error(s).what()) },
        { "stream", [](var& s, var&) -> var { if (s.heap() && !s.atype<char>()) return nil; if (!s.heap()) return nil; var r; varstream t(s.defined() ? s.copy() : s); t << "!"; return (var)t; } },
        { "word", [](var& s, var&) -> var { if (s.heap() && !s.atype<char>()) return nil; if (!s.heap()) return nil; varstream t(s.defined() ? s.copy() : s); std::string w; t >> w; return w.c_str(); } },
        { "variable", F(var(s)) },
        { "elements", [](var& s, var&) -> var { var r; r.array(); for (int i=0; i<s.size(); i++) r.push(var(s.at(i)).copy()); return r.size(); } },
        { "condition", F(s ? 1 : 0) },
    };
    // Those of two values
    const std::vector<Op> read2 = {
        { "add", F(s + b) }, { "subtract", F(s - b) }, { "multiply", F(s * b) }, { "divide", F(s / b) },
        { "equal", F((int)(s == b)) }, { "differ", F((int)(s != b)) }, { "less", F((int)(s < b)) }, { "greater", F((int)(s > b)) },
        { "at most", F((int)(s <= b)) }, { "at least", F((int)(s >= b)) },
        { "pow", F(libube::pow(s, b)) }, { "dot", F(libube::dot(s, b)) },
        { "index", F((int)(long)s.index(b)) },
        { "at", F(s.at(b)) },
        { "view", F(s.view(b)), true },
        { "views", F(s.defined() && s.atype<int>() ? libube::view(s, b).size() : var(0)) },
        { "search", F(s.search(b)) }, { "match", F(s.match(b)) },
        { "list", F(var({ s, b })), true }, { "list 3", F(var({ b, s, s })), true },
        { "concatenate", [](var& s, var& b) -> var { var a; a.resize(2); a.at(0) = s; a.at(1) = b; return libube::concatenate(a); }, true },
        { "key", [](var& s, var& b) -> var { var m; m[s] = b; return m; } },
        { "join", F(s.join(b.defined() && b.atype<char>() && b.size() > 1 ? b.str() : "+")) },
        { "element", [](var& s, var& b) -> var { var m = { "x", "y" }; m[0] = s; m[1] = b; return m; } },
        { "range", F((s.defined() && b.defined() && isReal(stype(s)) && stype(s) != TYPE_CHAR && isReal(stype(b)) && stype(b) != TYPE_CHAR) ? range(s, b) : var(0)) },
        { "step", F((s.defined() && isReal(stype(s))) ? range(s * 0, s, b) : var(0)) },
        { "number", F(var(2, 1) + s * b) },
        { "condition", F(s ? s : b) },
    };
    // Those that may change what they are called for
    const std::vector<Op> write1 = {
        { "clear", G(s.clear()) }, { "array", G(s.array()) }, { "resize 0", G(s.resize(0)) }, { "resize 1", G(s.resize(1)) }, { "presize", G(s.presize(9)) },
        { "pop", F(s.pop()) }, { "shift", F(s.shift()) }, { "remove 0", F(s.remove(0)) }, { "remove 1", F(s.remove(1)) },
        { "push 'x'", G(s.push('x')) }, { "push 5", G(s.push(5)) }, { "push nil", G(s.push(nil)) }, { "append text", G(s.append("more")) },
        { "append data", [](var& s, var&) -> var { static const int a[] = { 5, 6 }; s.append(2, a); return nil; } },
        { "unshift 5", G(s.unshift(5)) }, { "insert 5", G(s.insert(5, 1)) }, { "insert text", G(s.insert("more", 1)) },
        { "new entry", G(s["new"] = 5) }, { "entry", G(s["k"] = "v") }, { "read entry", F(s["zz"]) },
        { "index 0", F(s[0]) }, { "set 0", G(s[0] = 5) }, { "set 1", G(s[1] = "text") }, { "call 0", G((s.dim() > 1 ? s(0, 0) : s(0)) = 5.5) }, { "call 1 1", G(s(1, 1) = 5.5) }, { "set at 0", G(s.at(0) = 5) },
        { "floor", F(s.floor()) }, { "cos", F(s.cos()) }, { "log", F(s.log()) }, { "abs", F(s.abs()) }, { "norm", F(s.norm()) }, { "imag", F(s.imag()) },
        { "transpose", F(s.transpose()) }, { "toupper", F(s.toupper()) }, { "strip", F(s.strip()) },
        { "sort", G(libube::sort(s, s)) },
        { "offset", G(s.offset(0)) }, { "advance", G(s.advance(1)) },
        { "getline", [](var& s, var&) -> var { std::istringstream i("a line\nand another"); return s.getline(i); } },
        { "json", [](var& s, var&) -> var { std::istringstream i("{\"a\": [1, 2]}"); i >> s; return nil; } },
        { "bad json", [](var& s, var&) -> var { std::istringstream i("{\"a\": [1, "); i >> s; return nil; } },
        { "stream", [](var& s, var&) -> var { if (s.heap() && !s.atype<char>()) return nil; if (!s.heap()) return nil; varstream t(s); t << "!"; return nil; } },
        { "dereference", F(s.dereference()) },
        { "itself", G(s = s) }, { "double", G(s += s) }, { "push itself", G(if (s.defined()) s.push(s.copy())) },
        { "subtract 1", G(s -= 1) }, { "times 2", G(s *= 2) }, { "halve", G(s /= 2.0) }, { "pow 2", F(s.pow(2.0)) },
        { "nil", G(s = nil) }, { "string", G(s = "a string") }, { "list", G(s = { 1, 2 }) }, { "mixed", G(s = { "a", 2 }) },
        { "comma", G((s, 5)) },
    };
    const std::vector<Op> write2 = {
        { "assign", G(s = b) }, { "assign copy", G(s = b.copy()) }, { "push", G(s.push(b)), true }, { "insert", G(s.insert(b)) }, { "insert 1", G(s.insert(b, 1)) },
        { "append", G(s.append(b)) }, { "unshift", G(s.unshift(b)) }, { "comma", G((s, b)) },
        { "set 0", G(s[0] = b) }, { "set entry", G(s["k"] = b) }, { "set by", G(s[b] = 1) }, { "read by", F(s[b]) },
        { "add", G(s += b) }, { "subtract", G(s -= b) }, { "multiply", G(s *= b) }, { "divide", G(s /= b) }, { "pow", F(s.pow(b)) },
        { "add to", G(libube::add(s, b, s)) }, { "dot to", G(libube::dot(s, b, s)) },
        { "copy to", G(libube::set(s, b)) }, { "swap", G(libube::swap(s, b)) },
        { "into", G(libube::sqrt(b, s)) }, { "case into", G(libube::toupper(b, s)) },
        { "call 0", G((s.dim() > 1 ? s(0, 0) : s(0)) = b) },
        { "replace", F(s.replace(b, "x")), true }, { "replace by", F(s.replace("b", b)), true },
    };

    // A single cdouble is stored as an array; an element of an array of them
    // is not.  They are otherwise the same.
    std::string same(std::string s)
    {
        const std::string c = "cdouble[";
        for (size_t p=0; (p = s.find(c, p)) != std::string::npos; p++)
        {
            size_t e = s.find_first_of(",]", p);
            if (s[e] == ']') { s.erase(e, 1); s[p + c.size() - 1] = ' '; }
        }
        return s;
    }
    struct Result { bool threw = false; std::string ret, s, b; };

    // Whatever happens, happens to a fresh pair
    Result run(const Op& op, int vs, int hs, int vb, int hb, bool ends, bool same, std::string& around)
    {
        Result r;
        Held s(value(vs), hs), b(value(vb), hb);
        {
            var sv = hs == PLAIN ? var() : s.get();
            var bv = hb == PLAIN ? var() : b.get();
            var& x = hs == PLAIN ? s.v : sv;
            var& y = hb == PLAIN ? b.v : bv;
            try { var ret = op.f(x, y); r.ret = ends ? show(ret) : ""; }
            catch (mc::Violation&) { throw; }
            catch (std::exception& e) { r.threw = true; }
            // Through the name that was used
            r.s = show(x);
            r.b = show(y);
        }
        // And from where it came
        var x = s.get(), y = b.get();
        if (s.how != RETURNED && show(x) != r.s) r.s += ", in place " + show(x);
        if (b.how != RETURNED && show(y) != r.b) r.b += ", in place " + show(y);
        if (s.around() != s.before) around = std::string("beside the ") + hname[hs] + ": " + s.before + " becomes " + s.around();
        if (b.around() != b.before) around = std::string("beside the ") + hname[hb] + ": " + b.before + " becomes " + b.around();
        return r;
    }

    void judge(const Op& op, int vs, int hs, int vb, int hb, bool binary)
    {
        if (op.array && (hs >= NUMBER && vs == CD || hb >= NUMBER && vb == CD)) mc::prune();
        std::string what = std::string(op.name) + " of " + show(value(vs)) + " (" + hname[hs] + ")";
        if (binary) what += " with " + show(value(vb)) + " (" + hname[hb] + ")";
        MC_NOTE("%s", what.c_str());
        std::string a0, a1;
        Result want = run(op, vs, PLAIN, vb, PLAIN, true, false, a0);
        mc::step();
        Result got = run(op, vs, hs, vb, hb, true, false, a1);
        mc::step();
        for (Result* r : { &want, &got }) { r->ret = same(r->ret); r->s = same(r->s); r->b = same(r->b); }
        MC_CHECK(want.threw == got.threw, "throws", "%s %s; of a variable it %s", what.c_str(), got.threw ? "throws" : ("gives " + got.ret).c_str(), want.threw ? "throws" : ("gives " + want.ret).c_str());
        MC_CHECK(want.ret == got.ret, "result", "%s gives %s; of a variable it gives %s", what.c_str(), got.ret.c_str(), want.ret.c_str());
        MC_CHECK(want.s == got.s, "effect", "%s leaves %s; of a variable it leaves %s", what.c_str(), got.s.c_str(), want.s.c_str());
        MC_CHECK(want.b == got.b, "operand", "%s leaves its operand %s; of a variable it leaves %s", what.c_str(), got.b.c_str(), want.b.c_str());
        MC_CHECK(a1.empty(), "beside", "%s: %s", what.c_str(), a1.c_str());
        mc::state(what + got.ret + got.s);
    }

    void unary(const std::vector<Op>& ops, int holdings)
    {
        const Op& op = mc::pick(ops);
        int v = mc::choose(VALUES), h = mc::choose(holdings);
        judge(op, v, h, 0, PLAIN, false);
    }
    // What is done to a copy is not done to the original, nor the reverse
    void copies()
    {
        const Op& op = mc::pick(write1);
        int way = mc::choose(3);
        Op c;
        std::string name = std::string(way == 0 ? "copy, then " : way == 1 ? "copy before " : "copied into a list before ") + op.name;
        c.name = name.c_str();
        c.array = op.array;
        c.f = [&](var& s, var& b) -> var {
            var k = s.copy();
            if (way == 2) k = { "first", s.copy() };
            std::string was = show(k), swas = show(s);
            try { op.f(way ? s : k, b); } catch (std::exception&) {}
            // Those that share what is within are seen to be by both
            bool deep = s.heap() && ((long)s.atype() == TYPE_VAR || (long)s.atype() == TYPE_PAIR);
            if (!deep && way)
                MC_CHECK(show(k) == was, "copy", "%s: a copy of %s becomes %s", c.name, was.c_str(), show(k).c_str());
            if (!deep && !way && !k.view())
                MC_CHECK(show(s) == swas, "original", "%s: %s becomes %s", c.name, swas.c_str(), show(s).c_str());
            return k;
        };
        int v = mc::choose(VALUES), h = mc::choose(way ? KEY : HOLDINGS);
        judge(c, v, h, 0, PLAIN, false);
    }
    void binary(const std::vector<Op>& ops, int values, int hs, int hb)
    {
        const Op& op = mc::pick(ops);
        int v = mc::choose(values), w = mc::choose(values);
        int h = mc::choose(hs), g = mc::choose(hb);
        judge(op, v, h, w, g, true);
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    int values = th ? VALUES : 18;
    mc::bound("values", values);
    mc::bound("ways", HOLDINGS);
    mc::add("of one", []{ unary(read1, HOLDINGS); });
    mc::add("of two", [=]{ binary(read2, values, HOLDINGS, th ? HOLDINGS : 5); });
    mc::add("changing", []{ unary(write1, KEY); });
    mc::add("copies", copies);
    mc::add("changing by", [=]{ binary(write2, values, KEY, HOLDINGS); });
    return mc::run(argc, argv, "C40", "model_checking");
}
