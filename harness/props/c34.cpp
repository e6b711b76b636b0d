// C34: running out of memory.
// modules: txt-lib ini-lib path-lib graph-lib xml-lib ged-lib snd-lib gnuplot-lib
#include "oom.h"

namespace
{
    /*
     * The operations that change or make arrays, for all types and around the
     * sizes where they grow; with other variables sharing the array
     */
    const int gtypes[] = { TYPE_INT, TYPE_CHAR, TYPE_CDOUBLE, TYPE_VAR, TYPE_PAIR, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT };
    var garray(int t, int n)
    {
        var r;
        switch (t)
        {
        case TYPE_VAR:
            r.resize(n);
            if (!n) { r.array(); r.resize(0); }
            for (int i=0; i<n; i++) if (i % 3) r.at(i) = ("element " + std::to_string((i * 5) % 7)).c_str(); else r.at(i) = ints(2);
            return r;
        case TYPE_PAIR:
            for (int i=0; i<n; i++) r[std::to_string((i * 3) % 20 + 10).c_str()] = i % 2 ? var(i) : var("value");
            return r;
        }
        std::vector<cd> v;
        for (int i=0; i<n; i++) v.push_back(t >= TYPE_CFLOAT ? cd((i * 5) % 7 + 1, i) : cd((i * 5) % 7 + 65));
        return ref::array(t, v);
    }
    var gelement(int t) { return t == TYPE_VAR ? var("something new") : t == TYPE_PAIR ? var("key") : ref::scalar(t, cd(72)); }
    int gType, gSize, gAct, gShare, gElem;
    Op general(int ntypes, const std::vector<int>& sizes)
    {
        gType = gtypes[mc::choose(ntypes)];
        gSize = mc::pick(sizes);
        gAct = mc::choose(22);
        gShare = mc::choose(3);
        gElem = mc::choose(3);
        if (gElem && gAct > 2 && gAct != 13 && gAct != 14) mc::prune();
        if (gType == TYPE_PAIR && gSize == 0) mc::prune();
        if (gShare == 2 && (gType == TYPE_PAIR || gSize < 2)) mc::prune();
        // Single complex numbers are not arrays
        if (gType == TYPE_CDOUBLE && gSize <= 1) mc::prune();
        bool ok = true;
        auto setup = [](Env& e)
        {
            e[0] = garray(gType, gSize);
            e[1] = garray(gType, 5);
            // Of the same type, or to be cast, or impossible to cast
            e[2] = gElem == 0 ? gelement(gType) : gElem == 1 ? var(3.0) : ref::array(TYPE_CDOUBLE, { cd(2, 0) });
            if (gShare == 1) e[3] = e[0];
            if (gShare == 2) e[3] = e[0].view({ 2 });
        };
        auto run = [](Env& e)
        {
            var& x = e[0];
            switch (gAct)
            {
            case 0: x.push(e[2]); break;
            case 1: x.unshift(e[2]); break;
            case 2: x.insert(e[2], x.size() / 2); break;
            case 3: x.insert(e[1], x.size() / 2); break;
            case 4: x.append(e[1]); break;
            case 5: x.resize(x.size() + 9); break;
            case 6: x.presize(x.size() + 20); break;
            case 7: x = x.copy(); break;
            case 8: x = x.sort(); break;
            case 9: e[4] = x.pop(); break;
            case 10: e[4] = x.shift(); break;
            case 11: e[4] = x.remove(x.size() / 2); break;
            case 12: x = x.view({ (int)x.size() }); break;
            case 13: x["another key"] = e[2]; break;
            case 14: x.at(0) = e[2]; break;
            case 15: x = x + x; break;
            case 16: x = e[1] * e[2]; break;
            case 17: x.clear(); break;
            case 18: x.push(x[0]); break;
            case 19: x.insert(x, 1); break;
            case 20: x.resize(x.size() / 2); break;
            case 21: { varstream o; o.exceptions(std::ios::badbit); o << x; x = (var)o; } break;
            }
        };
        // An array that contains itself can't be freed
        if (gAct == 19 && (gType == TYPE_VAR || gType == TYPE_PAIR)) mc::prune();
        // Not all apply to all
        Op op = { "array operation", setup, run };
        Env e;
        fresh(e, op);
        if (gAct == 5 && gType != TYPE_VAR) mc::prune();   // leaves them undefined
        ok = !ref::throws([&]{ run(e); });
        if (!ok) mc::prune();
        MC_NOTE("action %d, type %s, size %d, sharing %d", gAct, ref::tname(gType), gSize, gShare);
        return op;
    }
    void fail(const std::vector<Op>& ops, bool twice);
    void failGeneral(int ntypes, std::vector<int> sizes)
    {
        std::vector<Op> v = { general(ntypes, sizes) };
        fail(v, mc::thorough());
    }
    void next(const std::vector<Op>& ops);
    void nextGeneral(int ntypes, std::vector<int> sizes)
    {
        std::vector<Op> v = { general(ntypes, sizes) };
        next(v);
    }

    void fail(const std::vector<Op>& ops, bool twice)
    {
        const Op& op = mc::pick(ops);
        MC_NOTE("operation %s", op.name);
        struct Clean { ~Clean() { release(); } } clean;
        gOutside = !strncmp(op.name, "path", 4);
        // What it should be, and the number of allocations; twice, because the
        // first time could fill some cache
        std::vector<std::string> before, after;
        long n = 0;
        for (int i=0; i<3; i++)
        {
            Env e;
            fresh(e, op);
            before = shows(e);
            { Armed a(-1, false); op.run(e); }
            n = gCount;
            after = shows(e);
        }
        if (n == 0) { mc::step(); return; }
        long at = mc::choose(n);
        bool persist = mc::flip();
        MC_NOTE("fails at allocation %ld of %ld%s", at, n, persist ? ", and from then on" : "");
        Env e;
        fresh(e, op);
        bool threw = false;
        std::string what;
        {
            Armed a(at, persist);
            try { op.run(e); }
            catch (mc::Violation&) { gArmed = false; throw; }
            catch (mc::Skip&) { gArmed = false; throw; }
            catch (std::exception& x) { gArmed = false; threw = true; what = x.what(); }
        }
        mc::step();
        std::vector<std::string> now = shows(e);
        mc::state(std::string(op.name) + std::to_string(at) + (threw ? "t" : "") + now[0]);
        if (!threw)
        {
            // There was something else to do; then it should have worked
            // The text of an error can be cut short
            bool error = !strncmp(op.name, "error", 5) && std::vector<std::string>(now.begin() + 1, now.end()) == std::vector<std::string>(after.begin() + 1, after.end());
            MC_CHECK(now == after || error, std::string(op.name) + (gTolerated ? "" : " ignored"), "%s: allocation %ld fails, it does not throw, but gives %s rather than %s", op.name, at, now[0].c_str(), after[0].c_str());
            return;
        }
        MC_CHECK(gFired, "throw", "%s throws %s", op.name, what.c_str());
        for (size_t i=1; i<e.size(); i++)
            MC_CHECK(now[i] == before[i], std::string(op.name) + " operand", "%s: allocation %ld fails, an operand becomes %s, was %s", op.name, at, now[i].c_str(), before[i].c_str());
        if (op.strong)
            MC_CHECK(now[0] == before[0], std::string(op.name) + " target", "%s: allocation %ld fails, the variable becomes %s, was %s", op.name, at, now[0].c_str(), before[0].c_str());
        if (now != before) return;
        // It can fail again, in the same place or another
        if (twice && !persist)
        {
            long at2 = mc::choose(n + 1) - 1;
            MC_NOTE("then at %ld", at2);
            if (at2 >= 0)
            {
                threw = false;
                {
                    Armed a(at2, false);
                    try { op.run(e); }
                    catch (mc::Violation&) { gArmed = false; throw; }
                    catch (mc::Skip&) { gArmed = false; throw; }
                    catch (std::exception& x) { gArmed = false; threw = true; }
                }
                mc::step();
                if (!threw) return;
                now = shows(e);
                if (op.strong) MC_CHECK(now == before, std::string(op.name) + " twice", "%s: allocations %ld then %ld fail, the variable becomes %s, was %s", op.name, at, at2, now[0].c_str(), before[0].c_str());
                if (now != before) return;
            }
        }
        // Once there is memory
        op.run(e);
        now = shows(e);
        MC_CHECK(now == after, std::string(op.name) + " again", "%s: allocation %ld fails, the next time gives %s rather than %s", op.name, at, now[0].c_str(), after[0].c_str());
    }
    // After the failure, the variable behaves as any other of that value
    void next(const std::vector<Op>& ops)
    {
        const Op& op = mc::pick(ops);
        MC_NOTE("operation %s", op.name);
        struct Clean { ~Clean() { release(); } } clean;
        long n = 0;
        for (int i=0; i<2; i++)
        {
            Env e;
            fresh(e, op);
            { Armed a(-1, false); op.run(e); }
            n = gCount;
        }
        if (n == 0) mc::prune();
        long at = mc::choose(n);
        Env e;
        fresh(e, op);
        {
            Armed a(at, false);
            try { op.run(e); }
            catch (mc::Violation&) { gArmed = false; throw; }
            catch (mc::Skip&) { gArmed = false; throw; }
            catch (std::exception& x) { gArmed = false; }
        }
        var v = e[0], c = clone(v);
        e.clear();
        std::string was = ref::show(v);
        MC_CHECK(ref::show(c) == was, "clone", "%s is cloned as %s", was.c_str(), ref::show(c).c_str());
        int k = mc::choose(12);
        MC_NOTE("allocation %ld fails leaving %s; then %d", at, was.c_str(), k);
        std::string r[2];
        for (int i=0; i<2; i++)
        {
            var& x = i ? c : v;
            std::string& o = r[i];
            auto act = [&]
            {
                var y;
                switch (k)
                {
                case 0: x.push(1); break;
                case 1: x.push("str"); break;
                case 2: x.resize(12); o = std::to_string(x.size()); x.resize(1); break;
                case 3: y = x.pop(); break;
                case 4: y = x.shift(); break;
                case 5: x.insert("new", 0); break;
                case 6: x["key"] = 1; break;
                case 7: y = x.copy(); y.push(3); break;
                case 8: y = x.remove(0); break;
                case 9: x.clear(); break;
                case 10: y = x.at(0); x = 5; break;
                case 11: { varstream s; s << x; o = ((var)s).str(); } break;
                }
                o += ref::show(y) + " ";
            };
            if (ref::throws(act)) o += "throws ";
            else o += ref::show(x);
        }
        mc::step();
        mc::state(r[0]);
        MC_CHECK(r[0] == r[1], std::string(op.name) + " then", "%s: after allocation %ld fails leaving %s, operation %d gives %s rather than %s", op.name, at, was.c_str(), k, r[0].c_str(), r[1].c_str());
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    std::vector<Op> all;
    struct Set { const char* name; std::vector<Op>* ops; } sets[] = {
        { "basic", &basic }, { "grow", &grow }, { "maps", &maps },
        { "maths", &maths }, { "strings", &strings }, { "files", &files }
    };
    int n = 0;
    for (auto& s : sets)
    {
        auto* o = s.ops;
        n += o->size();
        mc::add(s.name, [=]{ fail(*o, o != &files || th); }, mc::LEAK);
        if (o != &files)
            mc::add((std::string(s.name) + " next").c_str(), [=]{ next(*o); }, mc::LEAK);
    }
    std::vector<int> sizes = { 0, 1, 7, 8, 9, 2 };
    if (th) sizes = { 0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32 };
    int ty = th ? 9 : 6;
    mc::add("arrays", [=]{ failGeneral(ty, sizes); }, mc::LEAK);
    mc::add("arrays next", [=]{ nextGeneral(th ? 9 : 5, th ? sizes : std::vector<int>{ 7, 8 }); }, mc::LEAK);
    mc::bound("operations", n);
    return mc::run(argc, argv, "C34", "model_checking");
}
