// C42: variables in the containers and algorithms of the standard library.
#include "ref.h"
#include "big.h"
#include <algorithm>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <utility>
#include <vector>
using namespace libube;

namespace
{
    // A model of a value: a number; or something shared, with a name
    struct Val
    {
        int kind;                            // 0 nil, 1 int, 2 string, 3 array of var, 4 double
        int i;
        std::shared_ptr<std::string> s;      // Of kind 2
        std::shared_ptr<std::vector<Val>> a; // Of kind 3
        Val() : kind(0), i(0) {}
    };
    Val vInt(int i) { Val v; v.kind = 1; v.i = i; return v; }
    Val vDouble(int i) { Val v; v.kind = 4; v.i = i; return v; }
    Val vStr(const std::string& s) { Val v; v.kind = 2; v.s = std::make_shared<std::string>(s); return v; }
    Val vArr(std::vector<Val> a) { Val v; v.kind = 3; v.a = std::make_shared<std::vector<Val>>(a); return v; }
    std::string show(const Val& v)
    {
        switch (v.kind)
        {
        case 0: return "nil";
        case 1: return "int " + std::to_string(v.i);
        case 4: return "double " + std::to_string(v.i) + ".5";
        case 2: return mc::quote(*v.s);
        }
        std::string r;
        for (auto& x : *v.a) r += (r.empty() ? "" : ", ") + show(x);
        return "[" + r + "]";
    }
    var make(const Val& v)
    {
        switch (v.kind)
        {
        case 0: return nil;
        case 1: return v.i;
        case 4: return v.i + 0.5;
        case 2: return v.s->c_str();
        }
        var r;
        r.resize(v.a->size());
        for (size_t i=0; i<v.a->size(); i++) r.at(i) = make((*v.a)[i]);
        return r;
    }
    Val fresh(int k)
    {
        switch (k)
        {
        case 0: return vStr("b");
        case 1: return vInt(2);
        case 2: return vArr({ vStr("x"), vInt(1) });
        case 3: return vDouble(1);
        case 4: return Val();
        case 5: return vStr("ab");
        case 6: return vInt(1);
        }
        abort();
    }
    // Something that changes it in place, if it's shared
    void touch(Val& v) { if (v.kind == 2) *v.s += "!"; else if (v.kind == 3) v.a->push_back(vInt(7)); }
    void touch(var& v)
    {
        if (!v.defined() || !v.heap()) return;
        if (v.atype<char>()) v.push('!');
        else { v.resize(v.size() + 1); v.at(v.size() - 1) = 7; }
    }

    template<class C> std::string shows(const C& c)
    {
        std::string r;
        for (auto& x : c) r += (r.empty() ? "" : "; ") + show(x);
        return r;
    }
    template<class C> std::string showv(const C& c)
    {
        std::string r;
        for (auto& x : c) r += (r.empty() ? "" : "; ") + ref::show(x);
        return r;
    }

    // Histories of operations on two sequences
    template<class CV, class CM> void sequences(const char* what, int depth, int kinds)
    {
        CV v[2];
        CM m[2];
        int made = 0;
        std::string h = std::string(what) + ":";
        for (int d=0; d<depth; d++)
        {
            int op = mc::choose(17);
            auto &v0 = v[0], &v1 = v[1];
            auto &m0 = m[0], &m1 = m[1];
            int n = m0.size();
            auto iv = [&](int i) { return std::next(v0.begin(), i); };
            auto im = [&](int i) { return std::next(m0.begin(), i); };
            switch (op)
            {
            case 0:
            {
                if (n > 3) return;
                int k = mc::choose(kinds);
                h += " push " + std::to_string(k);
                Val x = fresh(k);
                m0.push_back(x);
                v0.push_back(make(x));
                made++;
                break;
            }
            case 1:
            {
                if (!n || n > 3) return;
                int i = mc::choose(n);
                h += " push the same as " + std::to_string(i);
                m0.push_back(Val(*im(i)));
                v0.push_back(*iv(i));
                break;
            }
            case 2:
            {
                if (!n) return;
                int i = mc::choose(n);
                h += " erase " + std::to_string(i);
                m0.erase(im(i));
                v0.erase(iv(i));
                break;
            }
            case 3:
                if (n > 3) return;
                h += " insert first";
                m0.insert(m0.begin(), vStr("new"));
                v0.insert(v0.begin(), var("new"));
                break;
            case 4:
                if (!n || n > 3) return;
                h += " insert the last first";
                m0.insert(m0.begin(), Val(*im(n - 1)));
                v0.insert(v0.begin(), var(*iv(n - 1)));
                break;
            case 5: h += " assign"; m1 = m0; v1 = v0; break;
            case 6: h += " swap"; m1.swap(m0); v1.swap(v0); break;
            case 7: h += " move"; m1 = std::move(m0); m0.clear(); v1 = std::move(v0); v0.clear(); break;
            case 8: if (n < 2) return; h += " reverse"; std::reverse(m0.begin(), m0.end()); std::reverse(v0.begin(), v0.end()); break;
            case 9: if (n < 2) return; h += " rotate"; std::rotate(m0.begin(), im(1), m0.end()); std::rotate(v0.begin(), iv(1), v0.end()); break;
            case 10: if (n < 2) return; h += " swap first and last"; std::swap(*im(0), *im(n - 1)); std::swap(*iv(0), *iv(n - 1)); break;
            case 11:
            {
                if (!n) return;
                int i = mc::choose(n);
                h += " change " + std::to_string(i);
                touch(*im(i));
                touch(*iv(i));
                break;
            }
            case 12:
            {
                if (!n) return;
                int i = mc::choose(n);
                h += " set " + std::to_string(i);
                *im(i) = vInt(9);
                *iv(i) = 9;
                break;
            }
            case 13: if (n > 3) return; h += " resize"; m0.resize(n + 1); v0.resize(n + 1); break;
            case 14:
            {
                if (n < 1) return;
                h += " assign itself";
                auto &a = *iv(0);
                a = a;
                a = std::move(a);
                CV& s = v0;
                v0 = s;
                break;
            }
            case 15:
            {
                if (n < 2) return;
                h += " cycle";
                Val x = std::move(*im(0));
                *im(0) = std::move(*im(1)); *im(1) = std::move(x);
                var t(std::move(*iv(0)));
                MC_CHECK(!iv(0)->defined() && ref::show(*iv(0)) == "nil", "moved", "%s: what was moved from is %s", h.c_str(), ref::show(*iv(0)).c_str());
                *iv(0) = std::move(*iv(1)); *iv(1) = std::move(t);
                break;
            }
            case 16:
            {
                if (m1.empty()) return;
                h += " set from the other";
                if (m0.empty()) { m0.push_back(m1.front()); v0.push_back(v1.front()); }
                else { *im(0) = m1.front(); *iv(0) = v1.front(); }
                break;
            }
            }
            mc::step();
            MC_NOTE("%s", h.c_str());
            for (int k=0; k<2; k++)
                MC_CHECK(shows(m[k]) == showv(v[k]), "content", "%s: sequence %d is %s, should be %s", h.c_str(), k, showv(v[k]).c_str(), shows(m[k]).c_str());
            mc::state(what + showv(v0) + "|" + showv(v1));
        }
    }

    // Ordering.  Values of one kind in order, with some that are equal
    var ranked(int kind, int r)
    {
        switch (kind)
        {
        case 0: return r - 1;
        case 1: { static const char* s[] = { "", "a", "ab", "b" }; return s[r]; }
        case 2: return r * 0.5 - 1;
        case 3: { static const int a[] = { 1, 2, 3, 4, 5, 6, 7, 8 }; return var(2, a + r); }
        case 4: { var v = { "k", 0 }; v[1] = r; return v; }
        case 5: { static const char c[] = { 'a', 'b', 'c', 'd' }; return c[r]; }
        case 6: return (long)r - 2;
        }
        abort();
    }
    const char* algName[] = { "sort", "stable sort", "partial sort", "heap", "nth", "merge", "unique", "remove", "lower bound", "min and max", "sorted", "set", "map", "multiset", "count and find", "permutations", "partition", "transform", "accumulate", "copy backward", "functions", "pairs and tuples", "list sort" };
    void algorithms(int maxN, int ranks)
    {
        int kind = mc::choose(7), alg = mc::choose(23), n = mc::choose(maxN + 1);
        std::vector<int> m;
        for (int i=0; i<n; i++) m.push_back(mc::choose(ranks));
        std::vector<var> v;
        for (int r : m) v.push_back(ranked(kind, r));
        std::string what = std::string(algName[alg]) + " of";
        for (int r : m) what += " " + std::to_string(r);
        what += ", kind " + std::to_string(kind);
        MC_NOTE("%s", what.c_str());
        mc::step(n);
        auto less = [](const var& a, const var& b) { return a < b; };
        auto is = [&](const std::vector<var>& v, const std::vector<int>& m) {
            std::string want;
            for (int r : m) want += (want.empty() ? "" : "; ") + ref::show(ranked(kind, r));
            MC_CHECK(showv(v) == want, "result", "%s is %s, should be %s", what.c_str(), showv(v).c_str(), want.c_str());
        };
        int mid = n / 2;
        switch (alg)
        {
        case 0: std::sort(v.begin(), v.end()); std::sort(m.begin(), m.end()); is(v, m); break;
        case 1: std::stable_sort(v.begin(), v.end(), less); std::stable_sort(m.begin(), m.end()); is(v, m); break;
        case 2: std::partial_sort(v.begin(), v.begin() + mid, v.end()); v.resize(mid); std::sort(m.begin(), m.end()); m.resize(mid); is(v, m); break;
        case 3:
            std::make_heap(v.begin(), v.end());
            v.push_back(ranked(kind, 1)); std::push_heap(v.begin(), v.end());
            m.push_back(1);
            std::pop_heap(v.begin(), v.end()); std::push_heap(v.begin(), v.end());
            std::sort_heap(v.begin(), v.end());
            std::sort(m.begin(), m.end());
            is(v, m);
            break;
        case 4:
            if (!n) return;
            std::nth_element(v.begin(), v.begin() + mid, v.end());
            std::sort(m.begin(), m.end());
            is({ v[mid] }, { m[mid] });
            break;
        case 5:
        {
            std::sort(v.begin(), v.begin() + mid); std::sort(v.begin() + mid, v.end());
            std::sort(m.begin(), m.begin() + mid); std::sort(m.begin() + mid, m.end());
            std::vector<var> o;
            std::merge(v.begin(), v.begin() + mid, v.begin() + mid, v.end(), std::back_inserter(o));
            std::inplace_merge(v.begin(), v.begin() + mid, v.end());
            std::sort(m.begin(), m.end());
            is(v, m);
            is(o, m);
            break;
        }
        case 6: v.erase(std::unique(v.begin(), v.end()), v.end()); m.erase(std::unique(m.begin(), m.end()), m.end()); is(v, m); break;
        case 7: v.erase(std::remove(v.begin(), v.end(), ranked(kind, 1)), v.end()); m.erase(std::remove(m.begin(), m.end(), 1), m.end()); is(v, m); break;
        case 8:
            std::sort(v.begin(), v.end()); std::sort(m.begin(), m.end());
            for (int r=0; r<ranks; r++)
            {
                MC_CHECK(std::lower_bound(v.begin(), v.end(), ranked(kind, r)) - v.begin() == std::lower_bound(m.begin(), m.end(), r) - m.begin(), "bound", "%s is wrong for %d", what.c_str(), r);
                MC_CHECK(std::upper_bound(v.begin(), v.end(), ranked(kind, r)) - v.begin() == std::upper_bound(m.begin(), m.end(), r) - m.begin(), "bound", "%s is wrong for %d", what.c_str(), r);
                MC_CHECK(std::binary_search(v.begin(), v.end(), ranked(kind, r)) == std::binary_search(m.begin(), m.end(), r), "bound", "%s is wrong for %d", what.c_str(), r);
            }
            break;
        case 9:
            if (!n) return;
            MC_CHECK(std::min_element(v.begin(), v.end()) - v.begin() == std::min_element(m.begin(), m.end()) - m.begin() &&
                     std::max_element(v.begin(), v.end()) - v.begin() == std::max_element(m.begin(), m.end()) - m.begin(), "result", "%s is wrong", what.c_str());
            is({ std::min(v[0], v[n-1]), std::max(v[0], v[n-1]) }, { std::min(m[0], m[n-1]), std::max(m[0], m[n-1]) });
            break;
        case 10: MC_CHECK(std::is_sorted(v.begin(), v.end()) == std::is_sorted(m.begin(), m.end()), "result", "%s is wrong", what.c_str()); break;
        case 11: { std::set<var> s(v.begin(), v.end()); std::set<int> t(m.begin(), m.end()); if (n) { s.erase(v[0]); t.erase(m[0]); } is({ s.begin(), s.end() }, { t.begin(), t.end() }); break; }
        case 12:
        {
            std::map<var, var> s; std::map<int, int> t;
            for (int i=0; i<n; i++) { s[v[i]] = v[n-1-i]; t[m[i]] = m[n-1-i]; }
            std::vector<var> a; std::vector<int> b;
            for (auto& x : s) { a.push_back(x.first); a.push_back(x.second); }
            for (auto& x : t) { b.push_back(x.first); b.push_back(x.second); }
            is(a, b);
            for (int r=0; r<ranks; r++) MC_CHECK(s.count(ranked(kind, r)) == t.count(r), "result", "%s is wrong for %d", what.c_str(), r);
            break;
        }
        case 13: { std::multiset<var> s(v.begin(), v.end()); std::multiset<int> t(m.begin(), m.end()); is({ s.begin(), s.end() }, { t.begin(), t.end() }); break; }
        case 14:
            for (int r=0; r<ranks; r++)
                MC_CHECK(std::count(v.begin(), v.end(), ranked(kind, r)) == std::count(m.begin(), m.end(), r) &&
                         std::find(v.begin(), v.end(), ranked(kind, r)) - v.begin() == std::find(m.begin(), m.end(), r) - m.begin(), "result", "%s is wrong for %d", what.c_str(), r);
            break;
        case 15:
        {
            bool a, b;
            int k = 0;
            do { a = std::next_permutation(v.begin(), v.end()); b = std::next_permutation(m.begin(), m.end()); is(v, m); MC_CHECK(a == b, "result", "%s ends early or late", what.c_str()); } while (a && ++k < 6);
            MC_CHECK((std::lexicographical_compare(v.begin(), v.begin() + mid, v.begin() + mid, v.end())) == (std::lexicographical_compare(m.begin(), m.begin() + mid, m.begin() + mid, m.end())), "result", "%s compares wrong", what.c_str());
            MC_CHECK((v == std::vector<var>(v.rbegin(), v.rend())) == (m == std::vector<int>(m.rbegin(), m.rend())), "result", "%s compares wrong", what.c_str());
            break;
        }
        case 16: { var p = ranked(kind, 1); std::stable_partition(v.begin(), v.end(), [&](const var& x) { return x < p; }); std::stable_partition(m.begin(), m.end(), [](int x) { return x < 1; }); is(v, m); break; }
        case 17: { std::vector<var> o(n); std::transform(v.begin(), v.end(), o.begin(), [](const var& x) { return x.copy(); }); is(o, m); std::reverse_copy(v.begin(), v.end(), o.begin()); std::reverse(m.begin(), m.end()); is(o, m); break; }
        case 18:
        {
            if (kind != 0 && kind != 6) return;
            var s = std::accumulate(v.begin(), v.end(), ranked(kind, kind ? 2 : 1));
            long want = 0;
            for (int r : m) want += r - (kind ? 2 : 1);
            MC_CHECK(s.cast<long>() == want, "result", "%s is %s, should be %ld", what.c_str(), ref::show(s).c_str(), want);
            break;
        }
        case 19:
            if (n < 2) return;
            std::copy_backward(v.begin(), v.end() - 1, v.end()); std::copy_backward(m.begin(), m.end() - 1, m.end()); is(v, m);
            std::move_backward(v.begin(), v.end() - 1, v.end()); std::move_backward(m.begin(), m.end() - 1, m.end());
            v.erase(v.begin()); m.erase(m.begin());
            is(v, m);
            break;
        case 20:
        {
            std::vector<std::function<var()>> f;
            for (auto& x : v) f.push_back([x] { return x; });
            auto g = f;
            f.clear();
            std::vector<var> o;
            for (auto& x : g) o.push_back(x());
            is(o, m);
            break;
        }
        case 21:
        {
            std::vector<std::pair<var, var>> p; std::vector<std::pair<int, int>> q;
            for (int i=0; i<n; i++) { p.push_back(std::make_pair(v[i], v[(i+1) % n])); q.push_back(std::make_pair(m[i], m[(i+1) % n])); }
            std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end());
            std::vector<var> a; std::vector<int> b;
            for (auto& x : p) { a.push_back(x.first); a.push_back(x.second); }
            for (auto& x : q) { b.push_back(x.first); b.push_back(x.second); }
            is(a, b);
            if (n < 2) break;
            var x, y;
            std::tie(x, y) = std::make_tuple(v[1], v[0]);
            is({ x, y, std::exchange(x, v[0]), x }, { m[1], m[0], m[1], m[0] });
            break;
        }
        case 22: { std::list<var> l(v.begin(), v.end()); l.sort(); std::sort(m.begin(), m.end()); l.unique(); m.erase(std::unique(m.begin(), m.end()), m.end()); is({ l.begin(), l.end() }, m); break; }
        }
        mc::state(what + showv(v));
    }

    // Containers of many
    void sizes()
    {
        static const std::vector<int> ns = ref::bigSizes(1025);
        int n = mc::pick(ns), kind = mc::choose(3), f = mc::choose(7);
        std::string what = "operation " + std::to_string(f) + " of " + std::to_string(n) + " of kind " + std::to_string(kind);
        MC_NOTE("%s", what.c_str());
        std::vector<int> m;
        std::vector<var> v;
        auto mk = [kind](int k) -> var { if (kind == 0) return k; if (kind == 1) { char b[16]; snprintf(b, sizeof b, "%05d", k); return b; } var r = { "k", 0 }; r[1] = k; return r; };
        for (int i=0; i<n; i++) { m.push_back(ref::patn(i) * (i % 3 + 1)); v.push_back(mk(m[i])); }
        mc::step(n);
        switch (f)
        {
        case 0: std::sort(v.begin(), v.end()); std::sort(m.begin(), m.end()); break;
        case 1: { std::set<var> s(v.begin(), v.end()); std::set<int> t(m.begin(), m.end()); v.assign(s.begin(), s.end()); m.assign(t.begin(), t.end()); break; }
        case 2: { std::map<var, var> s; std::map<int, int> t; for (int i=0; i<n; i++) { s[v[i]] = v[n-1-i]; t[m[i]] = m[n-1-i]; } v.clear(); m.clear(); for (auto& x : s) { v.push_back(x.first); v.push_back(x.second); } for (auto& x : t) { m.push_back(x.first); m.push_back(x.second); } break; }
        case 3: v.insert(v.begin() + n/2, mk(1)); m.insert(m.begin() + n/2, 1); v.erase(v.begin()); m.erase(m.begin()); std::reverse(v.begin(), v.end()); std::reverse(m.begin(), m.end()); break;
        case 4: { std::deque<var> d; std::deque<int> e; for (int i=0; i<n; i++) { if (i & 1) { d.push_back(v[i]); e.push_back(m[i]); } else { d.push_front(v[i]); e.push_front(m[i]); } } v.assign(d.begin(), d.end()); m.assign(e.begin(), e.end()); break; }
        case 5: { auto w = std::move(v); v = w; auto x = m; for (int i=0; i<n; i++) w[i] = 3; m = x; break; }
        case 6: { std::list<var> l; for (auto& x : v) { var t = x; l.push_back(std::move(t)); MC_CHECK(!t.defined(), "moved", "%s: something is left", what.c_str()); } l.sort(); v.assign(l.begin(), l.end()); std::sort(m.begin(), m.end()); break; }
        }
        MC_CHECK(v.size() == m.size(), "many", "%s gives %zu", what.c_str(), v.size());
        for (size_t i=0; i<m.size(); i++) MC_CHECK(v[i] == mk(m[i]), "many", "%s: element %zu is %s, should be %d", what.c_str(), i, ref::show(v[i]).c_str(), m[i]);
        mc::state(what);
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    int depth = th ? 6 : 5, kinds = th ? 5 : 4;
    mc::bound("operations", depth);
    mc::bound("values", th ? 6 : 5);
    mc::add("vector", [=] { sequences<std::vector<var>, std::vector<Val>>("vector", depth, kinds); }, mc::LEAK);
    mc::add("deque", [=] { sequences<std::deque<var>, std::deque<Val>>("deque", depth, kinds - 1); }, mc::LEAK);
    mc::add("list", [=] { sequences<std::list<var>, std::list<Val>>("list", depth, kinds - 1); }, mc::LEAK);
    mc::add("algorithms", [=] { algorithms(th ? 6 : 5, th ? 4 : 3); }, mc::LEAK);
    mc::add("sizes", sizes, mc::LEAK);
    return mc::run(argc, argv, "C42", "model_checking");
}
