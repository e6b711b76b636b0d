// C02: a variable indexed by key behaves as an ordered map with unique keys.
#include "ref.h"
#include "bigops.h"
#include <algorithm>
#include <map>
using namespace ref;

namespace
{
    // Key alphabets, each in ascending order
    std::vector<var> alphabet(int k)
    {
        switch (k)
        {
        case 0: return { "", "a", "ab", "b" };
        case 1: return { -1, 0, 2, 10 };
        case 2: return { -1.5, 0.0, 0.25, 3.0 };
        case 3: return { cd(0,-1), cd(0,1), cd(2,0), cd(-1,5) };
        case 4: return { cf(0,-1), cf(0,1), cf(2,0), cf(-1,5) };
        case 5: return { array(libube::TYPE_INT, {cd(1)}),
                         array(libube::TYPE_INT, {cd(1),cd(2)}),
                         array(libube::TYPE_INT, {cd(2)}),
                         array(libube::TYPE_INT, {cd(2),cd(-1)}) };
        case 6: return { "a", 'a', 1, 1.0 };       // mixed: order by type
        case 7: return { var({"a","b"}), var({"a","c"}), var({"b"}), var({"b",1}) };
        case 8: return { 'A', 'a', 'b', 'z' };
        case 9: return { -5l, 0l, 1l, 1l<<40 };
        }
        abort();
    }
    const int NALPHA = 10;

    struct Model
    {
        bool nil = true;
        std::map<int, std::string> m;        // by rank of key
    };

    struct Run
    {
        std::vector<var> keys;
        std::vector<std::string> shown;
    };

    void verify(var& v, const Model& m, Run& r, const char* w)
    {
        mc::step();
        if (!mc::fresh()) return;
        MC_CHECK(v.defined() == !m.nil, "defined", "after %s: defined() is %d",
                 w, v.defined());
        MC_CHECK(v.size() == (int)m.m.size(), "size",
                 "after %s: size() is %d, should be %zu: %s", w, v.size(),
                 m.m.size(), show(v).c_str());
        int i = 0;
        std::string h;
        for (auto& e : m.m)
        {
            std::string k = show(v.key(i)), x = show(v.at(i));
            MC_CHECK(k == r.shown[e.first], "key",
                     "after %s: key %d is %s, should be %s in %s", w, i, k.c_str(),
                     r.shown[e.first].c_str(), show(v).c_str());
            MC_CHECK(x == e.second, "value",
                     "after %s: value of key %s is %s, should be %s", w, k.c_str(),
                     x.c_str(), e.second.c_str());
            if (i > 0)
                MC_CHECK(v.key(i-1) < v.key(i), "order",
                         "after %s: keys %d and %d of %s are not ascending", w,
                         i-1, i, show(v).c_str());
            i++;
            h += k + ":" + x + ";";
        }
        if (!m.nil)
        {
            MC_CHECK((long)v.atype() == libube::TYPE_PAIR, "type", "after %s: not a map", w);
            const var& c = v;
            for (size_t j=0; j<r.keys.size(); j++)
            {
                auto it = m.m.find(j);
                var x = c.at(r.keys[j]);
                std::string s = show(x);
                MC_CHECK(s == (it == m.m.end() ? "nil" : it->second), "lookup",
                         "after %s: at(%s) is %s in %s", w, r.shown[j].c_str(),
                         s.c_str(), show(v).c_str());
                ind d = v.index(r.keys[j]);
                int e = it == m.m.end() ? -1 : (int)std::distance(m.m.begin(), it);
                MC_CHECK(e < 0 ? !d : (int)(long)d == e, "index",
                         "after %s: index(%s) is %d, should be %d in %s", w,
                         r.shown[j].c_str(), (int)(long)d, e, show(v).c_str());
            }
            MC_CHECK(v.size() == (int)m.m.size(), "inserted",
                     "at() or index() changed the map to %s", show(v).c_str());
        }
        mc::state(h + (m.nil ? "n" : ""));
    }

    void histories(int nAlpha, int depth)
    {
        Run r;
        int a = mc::choose(nAlpha);
        r.keys = alphabet(a);
        for (auto& k : r.keys) r.shown.push_back(show(k));
        var v;
        Model m;
        if (mc::flip())
        {
            v[nil];
            m.nil = false;
            MC_NOTE("empty map");
        }
        for (int i=0; i<depth; i++)
        {
            enum { SET, SETSTR, READ, NEST, REMOVE, POP, SHIFT, CLEAR, COPY, ALIAS,
                   ATSET, COPYKEY, NOPS };
            int menu[NOPS], nm = 0, n = m.m.size();
            for (int o=0; o<NOPS; o++)
            {
                bool ok = true;
                if (o == REMOVE || o == ATSET || o == POP || o == SHIFT) ok = n > 0;
                if (o == COPY || o == ALIAS || o == CLEAR) ok = !m.nil;
                if (ok) menu[nm++] = o;
            }
            int o = menu[mc::choose(nm)];
            char w[160];
            switch (o)
            {
            case SET:
            case SETSTR:
            {
                int k = mc::choose(r.keys.size());
                var x = o == SET ? var(i) : var("v");
                snprintf(w, sizeof w, "[%s] = %s", r.shown[k].c_str(), show(x).c_str());
                MC_NOTE("%s", w);
                v[r.keys[k]] = x;
                m.m[k] = show(x);
                m.nil = false;
                break;
            }
            case READ:
            {
                // Indexing inserts an undefined value if there is none
                int k = mc::choose(r.keys.size());
                snprintf(w, sizeof w, "[%s]", r.shown[k].c_str());
                MC_NOTE("%s", w);
                std::string s = show(v[r.keys[k]]);
                auto it = m.m.insert({k, "nil"}).first;
                MC_CHECK(s == it->second, "value", "%s is %s, should be %s", w,
                         s.c_str(), it->second.c_str());
                m.nil = false;
                break;
            }
            case NEST:
            {
                // A map within the map
                int k = mc::choose(r.keys.size());
                auto it = m.m.find(k);
                bool fresh = it == m.m.end() || it->second == "nil";
                if (!fresh && it->second[0] != '{') mc::prune();
                std::string key = mc::flip() ? "y" : "x";
                snprintf(w, sizeof w, "[%s][\"%s\"] = %d", r.shown[k].c_str(),
                         key.c_str(), i);
                MC_NOTE("%s", w);
                v[r.keys[k]][key.c_str()] = i;
                std::map<std::string,std::string> in;
                if (!fresh)
                {
                    // Parse the (known) form back
                    std::string s = it->second.substr(1, it->second.size()-2);
                    std::istringstream is(s);
                    std::string one;
                    while (std::getline(is, one, ','))
                    {
                        if (one[0] == ' ') one = one.substr(1);
                        size_t c = one.find(": ");
                        in[one.substr(0, c)] = one.substr(c+2);
                    }
                }
                in["\"" + key + "\""] = "int " + std::to_string(i);
                std::string s;
                for (auto& e : in)
                    s += (s.empty() ? "" : ", ") + e.first + ": " + e.second;
                m.m[k] = "{" + s + "}";
                m.nil = false;
                break;
            }
            case REMOVE:
            case POP:
            case SHIFT:
            {
                int j = o == POP ? n-1 : o == SHIFT ? 0 : mc::choose(n);
                snprintf(w, sizeof w, o == POP ? "pop()" : o == SHIFT ? "shift()" : "remove(%d)", j);
                MC_NOTE("%s", w);
                var x = o == POP ? v.pop() : o == SHIFT ? v.shift() : v.remove(j);
                auto it = m.m.begin();
                std::advance(it, j);
                MC_CHECK(show(x) == it->second, "result",
                         "%s returned %s, should be %s", w, show(x).c_str(),
                         it->second.c_str());
                m.m.erase(it);
                break;
            }
            case CLEAR:
                snprintf(w, sizeof w, "clear()");
                MC_NOTE("%s", w);
                v.clear();
                m = Model();
                break;
            case COPY:
            {
                int k = mc::choose(r.keys.size());
                snprintf(w, sizeof w, "copy(), and [%s] = 99 in the copy", r.shown[k].c_str());
                MC_NOTE("%s", w);
                var c = v.copy();
                MC_CHECK(show(c) == show(v), "copy", "a copy of %s is %s",
                         show(v).c_str(), show(c).c_str());
                c[r.keys[k]] = 99;
                Model n = m;
                n.m[k] = "int 99";
                verify(c, n, r, w);
                break;
            }
            case ALIAS:
            {
                int k = mc::choose(r.keys.size());
                snprintf(w, sizeof w, "[%s] = 77 by way of another variable", r.shown[k].c_str());
                MC_NOTE("%s", w);
                var c = v;
                c[r.keys[k]] = 77;
                m.m[k] = "int 77";
                break;
            }
            case ATSET:
            {
                int j = mc::choose(n);
                snprintf(w, sizeof w, "at(%d) = 55", j);
                MC_NOTE("%s", w);
                // at(key) also gives something that can be assigned to
                auto it = m.m.begin();
                std::advance(it, j);
                if (mc::flip()) v.at(j) = 55;
                else v.at(r.keys[it->first]) = 55;
                it->second = "int 55";
                break;
            }
            case COPYKEY:
            {
                // A key that is changed after it was used; only arrays and
                // strings can be
                int k = mc::choose(r.keys.size());
                snprintf(w, sizeof w, "[copy of %s] = 33", r.shown[k].c_str());
                MC_NOTE("%s", w);
                {
                    var key = r.keys[k].copy();
                    v[key] = 33;
                }
                m.m[k] = "int 33";
                m.nil = false;
                break;
            }
            }
            verify(v, m, r, w);
            for (size_t j=0; j<r.keys.size(); j++)
                MC_CHECK(show(r.keys[j]) == r.shown[j], "argument",
                         "%s changed a key from %s to %s", w, r.shown[j].c_str(),
                         show(r.keys[j]).c_str());
        }
    }

    // Insert n keys in every order, then look up and remove in every order
    void orders(int n)
    {
        std::vector<int> left;
        int kind = mc::choose(3);
        for (int i=0; i<n; i++) left.push_back(i);
        auto key = [&](int i) -> var {
            if (kind == 0) return var(i*2 - 3);
            if (kind == 1) { char b[8] = "k0"; b[1] = 'a'+i; return var(b); }
            return var(cd(i/2, i));       // by magnitude
        };
        var v;
        std::vector<int> in;
        while (left.size())
        {
            int i = mc::choose(left.size());
            int x = left[i];
            left.erase(left.begin()+i);
            MC_NOTE("insert %d", x);
            v[key(x)] = x;
            in.insert(std::lower_bound(in.begin(), in.end(), x), x);
            mc::step();
            MC_CHECK(v.size() == (int)in.size(), "size", "size is %d", v.size());
            for (size_t j=0; j<in.size(); j++)
                MC_CHECK(v.key(j) == key(in[j]) && v.at(j).get<int>() == in[j],
                         "order", "element %zu is wrong in %s", j, show(v).c_str());
            mc::state(show(v));
        }
        // Remove two of them, anywhere
        for (int k=0; k<2; k++)
        {
            int j = mc::choose(in.size());
            MC_NOTE("remove(%d)", j);
            var r = v.remove(j);
            MC_CHECK(r.get<int>() == in[j], "result", "remove(%d) returned %s", j,
                     show(r).c_str());
            in.erase(in.begin()+j);
            mc::step();
            for (size_t j=0; j<in.size(); j++)
                MC_CHECK(v.key(j) == key(in[j]) && v.at(j).get<int>() == in[j] &&
                         (int)(long)v.index(key(in[j])) == (int)j,
                         "remove", "element %zu is wrong in %s", j, show(v).c_str());
        }
    }

    // Maps within an array or a map, and everything done to them by way of
    // references of every kind
    void nested(int depth)
    {
        static const char* keys[] = { "a", "b", "c", "d" };
        bool outerMap = mc::flip();
        var v, held[3];
        std::vector<std::map<std::string, std::string>> m(3);
        for (int i=0; i<3; i++)
        {
            var in;
            in[nil];
            for (int j=0; j<3; j++)
                if (i + j != 3 && !(i == 2 && j == 0)) { in[keys[j]] = 10*i + j; m[i][keys[j]] = "int " + std::to_string(10*i+j); }
            if (outerMap) v[keys[i]] = in;
            else v.push(in);
            held[i] = in;
        }
        auto check = [&](const char* w) {
            mc::step();
            MC_CHECK(v.size() == 3, "outer", "after %s: %s", w, show(v).c_str());
            std::string all;
            for (int i=0; i<3; i++)
            {
                std::string e;
                for (auto& x : m[i]) e += (e.size() ? ", " : "") + mc::quote(x.first) + ": " + x.second;
                e = "{" + e + "}";
                std::string g = show(v.at(i));
                MC_CHECK(g == e, "nested", "after %s: element %d is %s, should be %s", w, i, g.c_str(), e.c_str());
                MC_CHECK(show(held[i]) == e, "nested", "after %s: variable %d is %s, should be %s", w, i, show(held[i]).c_str(), e.c_str());
                all += e;
            }
            mc::state(all);
        };
        check("building");
        for (int d=0; d<depth; d++)
        {
            int i = mc::choose(3), how = mc::choose(5), o = mc::choose(12), k = o < 6 ? mc::choose(4) : 0;
            auto& n = m[i];
            char w[100];
            static const char* ops[] = { "at(key)", "[key]", "[key]=", "at(key)=", "index", "copy()[key]=", "remove(0)", "pop", "shift", "key", "size", "const at" };
            static const char* hows[] = { "[]", "at", "ref", "at ref", "value" };
            snprintf(w, sizeof w, "%s %s of element %d by %s", ops[o], keys[k], i, hows[how]);
            MC_NOTE("%s", w);
            var r1 = outerMap ? v[keys[i]] : v[i], r2 = outerMap ? v.at(var(keys[i])) : v.at(i), val;
            val = v.at(i);
            auto with = [&](auto f) {
                switch (how)
                {
                case 0: { var&& e = outerMap ? v[keys[i]] : v[i]; f(e); break; }
                case 1: { var&& e = outerMap ? v.at(var(keys[i])) : v.at(i); f(e); break; }
                case 2: f(r1); break;
                case 3: f(r2); break;
                case 4: f(val); break;
                }
            };
            std::string got, want = n.count(keys[k]) ? n[keys[k]] : "nil";
            if (o >= 6 && o <= 8 && n.empty()) mc::prune();
            if (o == 9 && n.empty()) mc::prune();
            with([&](var& e) {
                switch (o)
                {
                case 0: got = show(e.at(var(keys[k]))); break;
                case 1: got = show(e[keys[k]]); n[keys[k]] = want; break;
                case 2: e[keys[k]] = "s"; n[keys[k]] = mc::quote("s"); got = want; break;
                case 3:
                    got = want;
                    if (!n.count(keys[k])) break;
                    e.at(var(keys[k])) = 7;
                    n[keys[k]] = "int 7";
                    break;
                case 4: got = e.index(keys[k]) ? std::to_string((long)e.index(keys[k])) : "none";
                    want = n.count(keys[k]) ? std::to_string(std::distance(n.begin(), n.find(keys[k]))) : "none";
                    break;
                case 5: { var c = e.copy(); c[keys[k]] = 3; got = want; break; }
                case 6: case 8: got = show(o == 6 ? e.remove(0) : e.shift()); want = n.begin()->second; n.erase(n.begin()); break;
                case 7: got = show(e.pop()); want = n.rbegin()->second; n.erase(std::prev(n.end())); break;
                case 9: got = show(e.key(0)); want = mc::quote(n.begin()->first); break;
                case 10: got = std::to_string(e.size()); want = std::to_string(n.size()); break;
                case 11: { const var& c = e; got = c.defined() ? show(c.at(var("b"))) : "?"; want = n.count("b") ? n["b"] : "nil"; break; }
                }
            });
            MC_CHECK(got == want, "result", "%s gives %s, should be %s", w, got.c_str(), want.c_str());
            check(w);
        }
    }
}

int main(int argc, char** argv)
{
    mc::add("leaks", []{ histories(NALPHA, 2); }, mc::LEAK);
    mc::add("insertion-orders", []{ orders(mc::thorough() ? 7 : 5); });
    mc::add("histories", []{ histories(NALPHA, 3); });
    mc::add("histories-strings", []{ histories(mc::thorough() ? 2 : 1, 4); });
    mc::add("nested", []{ nested(mc::thorough() ? 3 : 2); });
    mc::add("nested-leaks", []{ nested(1); }, mc::LEAK);
    mc::add("sizes", big::maps);
    mc::bound("operations_all_key_alphabets", 3);
    mc::bound("operations_string_keys", 4);
    return mc::run(argc, argv, "C02", "model_checking", {
        "four keys of each kind; keys are not changed while they are in a map" });
}
