// C23: GEDCOM files.
// modules: ged-lib
#include "ref.h"
#include "big.h"
#include <fstream>
#include <map>
#include <unistd.h>
#include <lube/module.h>
using namespace libube;
using mc::quote;

namespace
{
    typedef std::vector<std::string> Strs;
    struct Indi { std::string name = "nil", titl = "nil", sex = "nil"; };
    struct Fam { std::string husb = "nil", wife = "nil"; std::vector<int> chil; std::string xh, xw; std::vector<std::string> xc; };
    struct Ged
    {
        std::vector<Indi> indi;
        std::vector<Fam> fam;
        std::map<std::string, int> index;
    };
    std::string show(const Ged& g)
    {
        std::string r;
        for (auto& i : g.indi) r += "I(" + i.name + ", " + i.titl + ", " + i.sex + ") ";
        for (auto& f : g.fam)
        {
            r += "F(" + f.husb + ", " + f.wife + ", [";
            for (int c : f.chil) r += std::to_string(c) + " ";
            r += "]) ";
        }
        return r;
    }

    std::string field(const var& v)
    {
        if (!v.defined()) return "nil";
        if ((long)v.type() == TYPE_ARRAY && (long)v.atype() == TYPE_CHAR) return quote(ref::strOf(v));
        return ref::show(v);
    }
    std::string pos(const var& v) { return v.defined() && !v.heap() && (long)v.type() == TYPE_INT ? std::to_string(v.get<int>()) : field(v); }
    Ged ged(const var& v)
    {
        Ged g;
        if (!v.defined()) return g;
        MC_CHECK((long)v.type() == TYPE_ARRAY && (long)v.atype() == TYPE_PAIR, "type", "the result is %s", ref::show(v).c_str());
        for (int k=0; k<v.size(); k++)
        {
            std::string key = ref::strOf(v.key(k));
            var l = v.at(k);
            MC_CHECK(key == "Individual" || key == "Family", "type", "the result is %s", ref::show(v).c_str());
            MC_CHECK((long)l.type() == TYPE_ARRAY && (long)l.atype() == TYPE_VAR, "type", "%s is %s", key.c_str(), ref::show(l).c_str());
            for (int i=0; i<l.size(); i++)
            {
                var e = l.at(i);
                MC_CHECK(e.defined() && (long)e.type() == TYPE_ARRAY && (long)e.atype() == TYPE_PAIR && e.size() == 3, "type", "%s %d is %s", key.c_str(), i, ref::show(e).c_str());
                if (key == "Individual")
                {
                    Indi x;
                    x.name = field(e.at(var("NAME")));
                    x.titl = field(e.at(var("TITL")));
                    x.sex = field(e.at(var("SEX")));
                    g.indi.push_back(x);
                }
                else
                {
                    Fam x;
                    x.husb = pos(e.at(var("HUSB")));
                    x.wife = pos(e.at(var("WIFE")));
                    var c = e.at(var("CHIL"));
                    if (c.defined())
                    {
                        MC_CHECK((long)c.atype() == TYPE_INT, "type", "children %s", ref::show(c).c_str());
                        for (int j=0; j<c.size(); j++) x.chil.push_back(c.at(j).get<int>());
                    }
                    g.fam.push_back(x);
                }
            }
        }
        return g;
    }

    file& reader()
    {
        static filemodule* m = new filemodule("ged");
        static file& f = m->create();
        return f;
    }
    // The module prints as it goes
    struct Quiet
    {
        std::ostringstream os;
        std::streambuf* was;
        Quiet() { was = std::cout.rdbuf(os.rdbuf()); }
        ~Quiet() { std::cout.rdbuf(was); }
    };
    bool read(const std::string& text, var& v)
    {
        std::string f = mc::scratch() + "/r.ged";
        { std::ofstream os(f); os.write(text.data(), text.size()); }
        Quiet q;
        mc::step();
        return !ref::throws([&]{ v = reader().read(f.c_str()); });
    }
    void expect(const std::string& text, const Ged& want)
    {
        MC_NOTE("%s", quote(text).c_str());
        var v;
        MC_CHECK(read(text, v), "rejected", "%s is not accepted", quote(text).c_str());
        std::string g = show(ged(v)), w = show(want);
        MC_CHECK(g == w, "value", "%s\nis read as %s\nand should be %s", quote(text).c_str(), g.c_str(), w.c_str());
        mc::state(w);
    }

    // Sub-records of individuals; * is the tag that it defines
    struct Sub { const char* text; const char* tag; const char* value; };
    const Sub indiSubs[] = {
        { "1 NAME Homer  /Simpson/\n", "NAME", "Homer  /Simpson/" },
        { "1 SEX M\n", "SEX", "M" },
        { "1 TITL Mr of\n", "TITL", "Mr of" },
        { "1 BIRT\n2 DATE 1 JAN 1900\n2 PLAC Springfield\n3 FORM city\n", 0, 0 },
        { "1 DEAT\n", 0, 0 },
        { "1 NOTE a note\n2 CONT and more\n2 CONC of it\n", 0, 0 },
        { "1 FAMC @F1@\n2 NOTE n\n3 NAME not this\n", 0, 0 },
        { "1 _UID 99\n2 SEX X\n3 SEX Y\n2 TITL wrong\n", 0, 0 },
        { "1 OCCU none\n", 0, 0 },
        { "1 CHR Y\n2 NOTE x\n3 CONT y\n2 _ODD z\n3 DATE w\n", 0, 0 },
        { "1 FAMS @F2@\n", 0, 0 },
        { "1 REFN 5\n", 0, 0 },
        { "1 BIRT\n2 DATE 2 FEB 1902\n2 TITL not of the event\n2 SEX X\n", 0, 0 },
        { "1 DEAT Y\n2 DATE 1990\n2 NAME not this\n", 0, 0 },
        { "1 FAMC @F1@\n2 PEDI birth\n2 TITL nor this\n", 0, 0 },
        { "1 NOTE a note\n2 CONT and more\n2 SEX X\n", 0, 0 },
    };
    std::string indi(Ged& g, const std::string& xref, int maxSubs, int alphabet)
    {
        Indi x;
        std::string s = "0 @" + xref + "@ INDI\n";
        int n = mc::range(0, maxSubs);
        for (int i=0; i<n; i++)
        {
            const Sub& b = indiSubs[mc::choose(alphabet)];
            s += b.text;
            if (!b.tag) continue;
            std::string& f = b.tag[0] == 'N' ? x.name : b.tag[0] == 'T' ? x.titl : x.sex;
            if (f != "nil") mc::prune();     // only one of each
            f = quote(b.value);
        }
        g.index[xref] = (int)g.indi.size();
        g.indi.push_back(x);
        return s;
    }
    struct FSub { const char* text; char kind; const char* xref; };
    const FSub famSubs[] = {
        { "1 HUSB @I1@\n", 'H', "I1" },
        { "1 WIFE @I2@\n", 'W', "I2" },
        { "1 CHIL @I1@\n", 'C', "I1" },
        { "1 CHIL @I3@\n", 'C', "I3" },
        { "1 HUSB @I3@\n2 _X y\n", 'H', "I3" },
        { "1 MARR\n2 DATE 2000\n2 PLAC here\n", 0, 0 },
        { "1 CHIL @I2@\n2 NOTE adopted\n", 'C', "I2" },
        { "1 MARR Y\n", 0, 0 },
        { "1 DIV\n", 0, 0 },
        { "1 _UID 8\n2 HUSB @I2@\n2 CHIL @I2@\n", 0, 0 },
        { "1 CHIL @NONE@\n", 0, 0 },
        { "1 WIFE @I1@\n", 'W', "I1" },
        { "1 MARR\n2 DATE 1999\n2 HUSB @I1@\n2 CHIL @I2@\n", 0, 0 },
        { "1 WIFE @I3@\n2 _X y\n2 CHIL @I2@\n", 'W', "I3" },
    };
    std::string fam(Ged& g, const std::string& xref, int maxSubs, int alphabet)
    {
        Fam x;
        std::string s = "0 @" + xref + "@ FAM\n";
        int n = mc::range(0, maxSubs);
        for (int i=0; i<n; i++)
        {
            const FSub& b = famSubs[mc::choose(alphabet)];
            s += b.text;
            if (!b.kind) continue;
            if (b.kind == 'C') { x.xc.push_back(b.xref); continue; }
            std::string& f = b.kind == 'H' ? x.xh : x.xw;
            if (f.size()) mc::prune();
            f = b.xref;
        }
        g.fam.push_back(x);
        return s;
    }

    void resolve(Ged& g);
    void individuals(int maxSubs)
    {
        Ged g;
        std::string s = "0 HEAD\n1 SOUR me\n2 VERS 1\n";
        s += indi(g, "I1", maxSubs, 16);
        s += indi(g, "I2", mc::thorough() ? 2 : 1, 16);
        Fam f;
        f.husb = "0"; f.wife = "1"; f.chil = { 0, 1 };
        g.fam.push_back(f);
        expect(s + "0 @F1@ FAM\n1 HUSB @I1@\n1 WIFE @I2@\n1 CHIL @I1@\n1 CHIL @I2@\n0 TRLR\n", g);
    }
    void families(int maxSubs)
    {
        Ged g;
        std::string s;
        Indi x;
        x.name = quote("z"); g.index["I3"] = 0; g.indi.push_back(x);
        x.name = quote("y"); g.index["I1"] = 1; g.indi.push_back(x);
        x.name = quote("x"); g.index["I2"] = 2; g.indi.push_back(x);
        s = "0 @I3@ INDI\n1 NAME z\n0 @I1@ INDI\n1 NAME y\n0 @I2@ INDI\n1 NAME x\n";
        s += fam(g, "F1", maxSubs, 14);
        s += fam(g, "F2", 1, 14);
        resolve(g);
        expect(s + "0 TRLR\n", g);
    }
    // The members of a family may come after it
    void resolve(Ged& g)
    {
        for (auto& f : g.fam)
        {
            if (g.index.count(f.xh)) f.husb = std::to_string(g.index[f.xh]);
            if (g.index.count(f.xw)) f.wife = std::to_string(g.index[f.xw]);
            for (auto& c : f.xc) if (g.index.count(c)) f.chil.push_back(g.index[c]);
        }
    }
    // Any records at all; xrefs are assigned in order of appearance.
    std::string records(Ged& g, int maxn)
    {
        static const char* odd[] = {
            "0 HEAD\n", "0 HEAD\n1 CHAR ANSEL\n2 NAME x\n", "0 @S1@ SUBM\n", "0 @S2@ SUBM\n1 NAME Phil\n2 SEX M\n",
            "0 @O1@ OBJE\n1 NAME picture\n2 SEX F\n", "0 _ODD\n1 TITL x\n", "0 NOTE text\n1 CONT more\n", "0 @N1@ NOTE text\n",
        };
        int n = mc::range(0, maxn);
        std::string s;
        for (int i=0; i<n; i++)
        {
            int k = mc::choose(10);
            std::string x = std::to_string(g.indi.size() + 1);
            if (k == 0) s += indi(g, "I" + x, 1, 4);
            else if (k == 1) s += fam(g, "F" + std::to_string(g.fam.size() + 1), 1, 4);
            else s += odd[k-2];
        }
        resolve(g);
        return s;
    }
    void anyRecords(int maxn)
    {
        Ged g;
        std::string s = records(g, maxn);
        expect(s + "0 TRLR\n", g);
    }

    // Lines that make no sense
    void lines(int maxn)
    {
        static const char* l[] = {
            "0 @I1@ INDI\n", "1 NAME a b\n", "0 TRLR\n", "0 @F1@ FAM\n", "1 HUSB @I1@\n", "1 CHIL @I1@\n", "0\n", "\n", "x NAME\n",
            "1\n", "2 CONT c\n", "0 @I1@\n", "1 NAME\n", "0 NAME\n", " 1 SEX M\n", "-1 SEX\n", "1 CHIL\n", "0 @@ FAM\n", "1 BIRT\n", "99999999999 DATE\n", "0 HEAD",
            "1 CONC x\n", "0  INDI\n",
        };
        int n = mc::range(0, maxn);
        std::string s;
        for (int i=0; i<n; i++) s += mc::pick(l);
        bool trailer = mc::flip();
        if (trailer) s += "0 TRLR\n";
        MC_NOTE("%s", quote(s).c_str());
        var v;
        if (read(s, v)) ged(v);
        // The reader still works
        Ged g;
        g.indi.push_back(Indi());
        g.indi[0].sex = quote("F");
        g.fam.push_back(Fam());
        expect("0 @I2@ INDI\n1 SEX F\n0 @F2@ FAM\n1 HUSB @I1@\n0 TRLR\n", g);
    }
    // A file cut short anywhere, then another
    void truncated()
    {
        Ged g;
        std::string s = "0 HEAD\n1 CHAR ANSEL\n" + indi(g, "I1", mc::thorough() ? 2 : 1, 16) + fam(g, "F1", 1, 14) + "0 TRLR\n";
        resolve(g);
        int n = mc::choose((int)s.size());
        MC_NOTE("%d of %s", n, quote(s).c_str());
        var v;
        bool ok = read(s.substr(0, n), v);
        // Without its trailer it is not complete
        MC_CHECK(!ok || n >= (int)s.size() - 1, "truncated", "the first %d characters of %s are accepted", n, quote(s).c_str());
        expect(s, g);
    }
    // Two good files with the same reader; the first result stays as it was
    void twice()
    {
        Ged g, h;
        std::string s = records(g, 2) + "0 TRLR\n", t = records(h, 2) + "0 TRLR\n";
        var v;
        MC_CHECK(read(s, v), "rejected", "%s is not accepted", quote(s).c_str());
        expect(t, h);
        MC_CHECK(show(ged(v)) == show(g), "first", "%s changes what was read before from %s to %s", quote(t).c_str(), show(g).c_str(), show(ged(v)).c_str());
    }
    void failures()
    {
        int k = mc::choose(3);
        std::string f = k == 0 ? mc::scratch() + "/absent.ged" : k == 1 ? mc::scratch() : "";
        var v;
        bool t = ref::throws([&]{ Quiet q; v = reader().read(f.c_str()); });
        MC_CHECK(t && !v.defined(), "unreported", "reading %s gives %s", quote(f).c_str(), ref::show(v).c_str());
        Ged g;
        g.indi.push_back(Indi());
        expect("0 @I2@ INDI\n0 TRLR\n", g);
    }

    // Many of each
    void many()
    {
        static const std::vector<int> ns = ref::bigSizes(257);
        int n = mc::pick(ns), order = mc::choose(3);
        std::string what = std::to_string(n) + " individuals and as many families, order " + std::to_string(order);
        MC_NOTE("%s", what.c_str());
        std::string indi, fam, mix;
        Ged want;
        for (int i=0; i<n; i++)
        {
            std::string x = std::to_string(i + 1), s = "0 @I" + x + "@ INDI\n1 NAME N" + x + " /S/\n1 SEX " + (i % 2 ? "F" : "M") + "\n";
            Indi y;
            y.name = quote("N" + x + " /S/"); y.sex = i % 2 ? "\"F\"" : "\"M\"";
            if (i % 3 == 0) { s += "1 TITL T" + x + "\n"; y.titl = quote("T" + x); }
            want.indi.push_back(y);
            std::string g = "0 @F" + x + "@ FAM\n1 HUSB @I" + x + "@\n1 WIFE @I" + std::to_string((i + 1) % n + 1) + "@\n";
            Fam z;
            z.husb = std::to_string(i); z.wife = std::to_string((i + 1) % n);
            for (int k=0; k<i % 4; k++) { g += "1 CHIL @I" + std::to_string((i * 3 + k) % n + 1) + "@\n"; z.chil.push_back((i * 3 + k) % n); }
            want.fam.push_back(z);
            indi += s; fam += g; mix += i % 2 ? s + g : g + s;
        }
        // One with very many children
        if (n)
        {
            Fam z;
            z.husb = "0";
            std::string g = "0 @FX@ FAM\n1 HUSB @I1@\n";
            for (int i=0; i<n; i++) { g += "1 CHIL @I" + std::to_string(n - i) + "@\n"; z.chil.push_back(n - 1 - i); }
            want.fam.push_back(z);
            fam += g; mix += g;
        }
        expect("0 HEAD\n1 CHAR UTF-8\n" + (order == 0 ? indi + fam : order == 1 ? fam + indi : mix) + "0 TRLR\n", want);
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    int n = th ? 4 : 3;
    mc::bound("sub-records", n);
    mc::bound("lines", th ? 4 : 3);
    mc::add("individuals", [n]{ individuals(n); });
    mc::add("families", [n]{ families(n); });
    mc::add("records", [th]{ anyRecords(th ? 5 : 4); });
    mc::add("lines", [th]{ lines(th ? 4 : 3); });
    mc::add("truncated", truncated, mc::LEAK);
    mc::add("twice", twice, mc::LEAK);
    mc::add("failures", failures, mc::LEAK);
    mc::add("many", many);
    return mc::run(argc, argv, "C23", "model_checking");
}
