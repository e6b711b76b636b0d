// C27: sound files.
// modules: snd-lib
#include "arr.h"
#include <algorithm>
#include <fstream>
#include <map>
#include <unistd.h>
#include <sys/stat.h>
#include <lube/module.h>
using namespace libube;
using mc::quote;

namespace
{
    std::string slurp(const std::string& f)
    {
        std::ifstream s(f, std::ios::binary);
        std::stringstream b;
        b << s.rdbuf();
        return b.str();
    }
    void spit(const std::string& f, const std::string& s) { std::ofstream(f, std::ios::binary | std::ios::trunc) << s; }

    struct Sound
    {
        int chan, frames, rate;
        std::vector<float> s;              // channel by channel
        float at(int c, int f) const { return s[c * frames + f]; }
    };
    std::string text(const Sound& x)
    {
        std::string r = std::to_string(x.chan) + "x" + std::to_string(x.frames) + " at " + std::to_string(x.rate) + ":";
        for (float f : x.s) r += " " + ref::fmt(ref::cd(f), false);
        return r;
    }
    // Value of a sample number
    float sample(int k)
    {
        static const float v[] = { 0, 0.5f, -1, 0.25f, 32767.0f / 32768, -0.5f, 1.0f / 32768, -1.0f / 32768, -0.123f, 1, 0.9f, 1e-7f };
        return v[k % 12];
    }

    // A file as another program would write it
    void put(std::string& s, unsigned long v, int n, bool big)
    {
        for (int i=0; i<n; i++) s += (char)(v >> 8 * (big ? n - 1 - i : i));
    }
    enum Fmt { S16, U8, S24, S32, F32, F64, NFMT };
    static const int bits[] = { 16, 8, 24, 32, 32, 64 };
    void putSample(std::string& s, int fmt, float x, bool big)
    {
        if (fmt < F32 && x > 0.99f) x = 0.99f;
        switch (fmt)
        {
        case S16: put(s, (long)lrint(x * 32768.0) & 0xffff, 2, big); break;
        case U8: put(s, (long)lrint(x * 128.0) + 128, 1, big); break;
        case S24: put(s, (long)lrint(x * 8388608.0) & 0xffffff, 3, big); break;
        case S32: put(s, (long)lrint(x * 2147483648.0) & 0xffffffff, 4, big); break;
        case F32: { unsigned u; memcpy(&u, &x, 4); put(s, u, 4, big); break; }
        case F64: { double d = x; unsigned long u; memcpy(&u, &d, 8); put(s, u, 8, big); break; }
        }
    }
    // junk: 0 none, 1 an odd sized chunk before the data, 2 one after it
    std::string wav(const Sound& x, int fmt, int junk, bool big)
    {
        std::string d, f, o;
        int b = bits[fmt] / 8;
        for (int i=0; i<x.frames; i++)
            for (int c=0; c<x.chan; c++) putSample(d, fmt, x.at(c, i), big);
        put(f, fmt >= F32 ? 3 : 1, 2, big);
        put(f, x.chan, 2, big);
        put(f, x.rate, 4, big);
        put(f, (long)x.rate * x.chan * b, 4, big);
        put(f, x.chan * b, 2, big);
        put(f, bits[fmt], 2, big);
        auto chunk = [&](const char* id, const std::string& s){
            o += id;
            put(o, s.size(), 4, big);
            o += s;
            if (s.size() % 2) o += '\0';
        };
        chunk("fmt ", f);
        if (fmt >= F32) { std::string n; put(n, x.frames, 4, big); chunk("fact", n); }
        if (junk == 1) chunk("junk", "abc");
        chunk("data", d);
        if (junk == 2) chunk("junk", "abc");
        std::string r = big ? "RIFX" : "RIFF";
        put(r, o.size() + 4, 4, big);
        return r + "WAVE" + o;
    }
    std::string au(const Sound& x)
    {
        std::string r = ".snd";
        put(r, 28, 4, true);
        put(r, x.frames * x.chan * 2, 4, true);
        put(r, 3, 4, true);
        put(r, x.rate, 4, true);
        put(r, x.chan, 4, true);
        put(r, 0, 4, true);
        for (int i=0; i<x.frames; i++)
            for (int c=0; c<x.chan; c++) putSample(r, S16, x.at(c, i), true);
        return r;
    }

    struct Module
    {
        filemodule m;
        Module() : m("snd") {}
        file& make() { return m.create(); }
        file& make(var a) { return m.create(a); }
    };

    // That what was read is the sound, to a given accuracy
    void same(const var& v, const Sound& x, double tol, const char* what)
    {
        MC_CHECK(v.defined() && (long)v.type() == TYPE_ARRAY && (long)v.atype() == TYPE_FLOAT, "type", "%s: %s gives %s", what, text(x).c_str(), ref::show(v).c_str());
        if (x.chan == 1)
            MC_CHECK((int)v.dim() <= 1 || (v.dim() == 2 && v.shape(0) == 1), "shape", "%s: %s gives %s", what, text(x).c_str(), ref::show(v).c_str());
        else
            MC_CHECK((int)v.dim() == 2 && v.shape(0) == x.chan && v.shape(1) == x.frames, "shape", "%s: %s gives %s", what, text(x).c_str(), ref::show(v).c_str());
        MC_CHECK((int)v.size() == x.chan * x.frames, "size", "%s: %s gives %s", what, text(x).c_str(), ref::show(v).c_str());
        var w = v;
        for (int i=0; i<w.size(); i++)
        {
            double d = w.at(i).get<float>() - x.s[i];
            MC_CHECK(fabs(d) <= tol, "sample", "%s: %s gives %s", what, text(x).c_str(), ref::show(v).c_str());
        }
    }
    int rateOf(var a)
    {
        MC_CHECK((long)a.atype() == TYPE_PAIR && (long)a.at(var("rate")).type() == TYPE_INT, "rate", "the attributes are %s", ref::show(a).c_str());
        return a.at(var("rate")).get<int>();
    }
    const double RES = 2.0 / 32768;

    Sound sound(int maxc, int maxf, int vals)
    {
        static const int rate[] = { 8000, 44100, 1, 192000 };
        Sound x;
        x.chan = mc::range(1, maxc);
        x.frames = mc::range(0, maxf);
        x.rate = 16000;
        if (x.frames < 2) x.rate = mc::pick(rate);
        for (int i=0; i<x.chan*x.frames; i++)
            x.s.push_back(sample(i < 3 ? mc::choose(vals) : i * 5 + 1));
        return x;
    }
    ref::Arr value(const Sound& x, int how)
    {
        ref::Shape s = { x.chan, x.frames };
        if (how == 3) s = { x.frames };
        return ref::make(TYPE_FLOAT, s, how == 3 ? 0 : how, [&](int i){ return ref::cd(x.s[i]); });
    }
    void unchanged(const ref::Arr& a, const char* what)
    {
        auto now = ref::read(a.base);
        MC_CHECK(now == a.was, "changed", "%s changes the samples to %s", what, ref::list(now).c_str());
    }

    void roundTrip(int maxc, int maxf, int vals)
    {
        Sound x = sound(maxc, maxf, vals);
        // As a view at some offset, or a vector
        int how = mc::choose(x.chan == 1 ? 4 : 3);
        if (x.frames == 0 && how != 3) how = 0;
        ref::Arr a = value(x, how);
        std::string f = mc::scratch() + "/x.wav";
        bool exists = mc::flip();
        if (exists) spit(f, std::string(2000, 'x'));
        else unlink(f.c_str());
        MC_NOTE("%s how %d", text(x).c_str(), how);
        mc::step(4);
        Module m;
        var attr, attr2;
        attr["rate"] = x.rate;
        attr["other"] = "thing";
        attr2[nil];
        file& w = m.make(attr);
        file& r = m.make(attr2);
        var name = f.c_str();
        w.write(name, a.v);
        MC_CHECK(ref::strOf(name) == f, "changed", "the name is changed");
        unchanged(a, "write");
        MC_CHECK(ref::show(attr) == "{\"other\": \"thing\", \"rate\": int " + std::to_string(x.rate) + "}" , "attr", "writing changes the attributes to %s", ref::show(attr).c_str());
        var v = r.read(name);
        same(v, x, RES, "round trip");
        MC_CHECK(rateOf(attr2) == x.rate, "rate", "%s has rate %d", text(x).c_str(), rateOf(attr2));
        mc::state(ref::show(v));
        // Again, with what was read; and the result does not depend on the reader
        std::string bytes = slurp(f);
        w.write(name, v);
        var u = m.make().read(name);
        same(u, x, 2 * RES, "second round trip");
        w.write(name, a.v);
        MC_CHECK(slurp(f) == bytes, "twice", "written again, %s differs", text(x).c_str());
        // The file is one that others read
        MC_CHECK(bytes.size() >= 12 && bytes.substr(0, 4) == "RIFF" && bytes.substr(8, 4) == "WAVE", "wav", "%s is not written as WAV", text(x).c_str());
        size_t d = bytes.find("data");
        MC_CHECK(d != std::string::npos && d + 8 + x.s.size() * 2 <= bytes.size() , "wav", "%s is written in %d bytes", text(x).c_str(), (int)bytes.size());
        for (int i=0; i<x.frames; i++)
            for (int c=0; c<x.chan; c++)
            {
                size_t o = d + 8 + 2 * (i * x.chan + c);
                short s = (short)((unsigned char)bytes[o] | (unsigned char)bytes[o+1] << 8);
                MC_CHECK(fabs(s / 32768.0 - x.at(c, i)) <= RES, "interleave", "%s has %d at channel %d frame %d", text(x).c_str(), s, c, i);
            }
    }

    void others()
    {
        Sound x = sound(3, 4, 4);
        int fmt = mc::choose(NFMT + 1), junk = fmt < NFMT ? mc::choose(3) : 0;
        bool big = fmt < NFMT ? mc::flip() : true;
        // What the format makes of it
        for (float& s : x.s)
        {
            if (s > 0.99f) s = 0.75f;
            if (fmt == U8) s = lrint(s * 128) / 128.0f;
        }
        std::string f = mc::scratch() + "/o.wav";
        spit(f, fmt < NFMT ? wav(x, fmt, junk, big) : au(x));
        MC_NOTE("%s fmt %d junk %d big %d", text(x).c_str(), fmt, junk, big);
        mc::step(2);
        Module m;
        var attr;
        attr[nil];
        var v = m.make(attr).read(f.c_str());
        same(v, x, RES, "other writer");
        MC_CHECK(rateOf(attr) == x.rate, "rate", "%s has rate %d", text(x).c_str(), rateOf(attr));
    }

    // Every truncation, and changes to every byte of the header.  Anything
    // but wrong samples will do, and nothing may be out of bounds
    void damaged(bool truncate)
    {
        Sound x;
        x.chan = mc::range(1, 2);
        x.frames = 3;
        x.rate = 8000;
        for (int i=0; i<6; i++) x.s.push_back(sample(i + 1));
        x.s.resize(x.chan * x.frames);
        for (float& s : x.s) if (s > 0.99f) s = 0.75f;
        int fmt = mc::choose(2);
        std::string b = wav(x, fmt, 0, false), f = mc::scratch() + "/d.wav";
        for (float& s : x.s) if (fmt == U8) s = lrint(s * 128) / 128.0f;
        if (truncate)
        {
            size_t n = mc::choose(b.size());
            spit(f, b.substr(0, n));
            MC_NOTE("first %d of %d bytes", (int)n, (int)b.size());
        }
        else
        {
            static const unsigned char with[] = { 0, 1, 2, 0x7f, 0x80, 0xff, 'x' };
            size_t n = mc::choose(44);
            unsigned char c = mc::pick(with);
            int second = mc::choose(2);
            b[n] = c;
            if (second) { if (n % 4 == 3) mc::prune(); b[n + 1] = c; }
            spit(f, b);
            MC_NOTE("byte %d is %d", (int)n, c);
        }
        mc::step();
        Module m;
        file& r = m.make();
        var v;
        bool threw = ref::throws([&]{ v = r.read(f.c_str()); });
        if (truncate && !threw)
        {
            // So much of each channel as is there
            Sound y = x;
            y.frames = (int)v.size() / x.chan;
            MC_CHECK(y.frames <= x.frames, "more", "a truncated file has %d samples", (int)v.size());
            y.s.clear();
            for (int c=0; c<x.chan; c++)
                for (int i=0; i<y.frames; i++) y.s.push_back(x.at(c, i));
            same(v, y, RES, "truncated");
        }
        if (!threw && v.defined())
        {
            double t = 0;
            for (int i=0; i<v.size(); i++) t += v.at(i).get<float>();
            mc::state(ref::show(v));
        }
        // As before for a good one
        spit(f, wav(x, S16, 0, false));
        same(r.read(f.c_str()), x, RES, "after damage");
    }

    // What can not be written or read
    void failures()
    {
        std::string d = mc::scratch();
        mkdir((d + "/dir").c_str(), 0700);
        spit(d + "/text", "This is not sound\n");
        spit(d + "/empty", "");
        spit(d + "/keep.wav", "keep");
        Module m;
        var attr;
        attr["rate"] = 8000;
        var good = ref::array(TYPE_FLOAT, { 0.5, 0.25 });
        int o = mc::choose(3);
        mc::step();
        if (o == 0)
        {
            std::string f[] = { d + "/absent", d + "/dir", d + "/text", d + "/empty", d + "/absent/x", "" };
            std::string n = mc::pick(f);
            MC_NOTE("read %s", n.c_str());
            file& r = m.make(attr);
            MC_CHECK(ref::throws([&]{ r.read(n.c_str()); }), "unreported", "reading %s does not throw", n.c_str());
            MC_CHECK(ref::show(attr) == "{\"rate\": int 8000}", "attr", "a failing read changes the attributes to %s", ref::show(attr).c_str());
        }
        else if (o == 1)
        {
            std::string f[] = { d + "/absent/x.wav", d + "/dir", "", "/dev/full" };
            std::string n = mc::pick(f);
            static const int size[] = { 0, 1, 2, 3, 5000, 200000 };
            int k = mc::pick(size), ch = mc::range(1, 2);
            MC_NOTE("write %s %d", n.c_str(), k);
            var v = ref::array(TYPE_FLOAT, std::vector<ref::cd>(k * ch));
            if (ch == 2) v = v.view({ 2, k });
            file& w = m.make(attr);
            MC_CHECK(ref::throws([&]{ w.write(n.c_str(), v); }), "unreported", "writing %d frames to %s does not throw", k, n.c_str());
        }
        else
        {
            // Of the wrong type, shape or rate: either an error, or a file
            // with the samples
            int k = mc::choose(16);
            var v = good.copy();
            bool must = true;
            switch (k)
            {
            case 0: v = ref::array(TYPE_DOUBLE, { 0.5, 0.25 }); must = false; break;
            case 1: v = ref::array(TYPE_INT, { 1, 0 }); must = false; break;
            case 2: v = "text"; break;
            case 3: v = nil; break;
            case 4: v = nil; v["k"] = 1.0f; break;
            case 5: v = nil; v[0] = good; v[1] = good; break;
            case 6: v = ref::make(TYPE_FLOAT, { 2, 2, 2 }, 0, [](int i){ return ref::cd(i / 8.0); }).v; break;
            case 7: attr["rate"] = 0; break;
            case 8: attr["rate"] = -8000; break;
            case 9: attr["rate"] = nil; break;
            case 10: attr["rate"] = "fast"; break;
            case 11: v = ref::make(TYPE_FLOAT, { 1025, 1 }, 0, [](int i){ return ref::cd(0.5); }).v; break;
            case 12: attr = nil; break;
            case 13: attr["rate"] = 8000.0f; must = false; break;
            case 14: attr["rate"] = "8000"; must = false; break;
            case 15: attr["rate"] = 8000L; must = false; break;
            }
            std::string was = ref::show(v), f = d + "/keep.wav";
            MC_NOTE("write %d", k);
            file& w = m.make(attr);
            bool threw = ref::throws([&]{ w.write(f.c_str(), v); });
            MC_CHECK(threw || !must, "accepted", "writing %s at rate %s is accepted", was.c_str(), ref::show(attr).c_str());
            MC_CHECK(ref::show(v) == was, "changed", "writing changes the samples to %s", ref::show(v).c_str());
            if (!threw)
            {
                Sound x = { 1, 2, 8000, { 0.5f, 0.25f } };
                if (k == 1) x.s = { 1, 0 };
                var b;
                b[nil];
                same(m.make(b).read(f.c_str()), x, RES, "other type");
                MC_CHECK(rateOf(b) == 8000, "rate", "rate %s gives %d", ref::show(attr).c_str(), rateOf(b));
            }
            else if (k <= 6)
                MC_CHECK(slurp(f) == "keep", "lost", "failing to write %s has replaced the file", was.c_str());
        }
        // The module still works
        var a;
        a["rate"] = 8000;
        std::string g = d + "/good.wav";
        m.make(a).write(g.c_str(), good);
        Sound x = { 1, 2, 8000, { 0.5f, 0.25f } };
        same(m.make().read(g.c_str()), x, RES, "after failure");
    }

    // Large files
    void large()
    {
        static const int size[] = { 1000, 4096, 10000, 65537 };
        Sound x;
        x.chan = mc::range(1, 3);
        x.frames = mc::pick(size);
        x.rate = 16000;
        for (int i=0; i<x.chan*x.frames; i++) x.s.push_back((i * 37 % 65536 - 32768) / 32768.0f);
        ref::Arr a = value(x, 0);
        std::string f = mc::scratch() + "/l.wav";
        Module m;
        var attr;
        attr["rate"] = x.rate;
        file& w = m.make(attr);
        w.write(f.c_str(), a.v);
        var v = w.read(f.c_str());
        MC_CHECK((int)v.size() == x.chan * x.frames && (x.chan == 1 || (v.shape(0) == x.chan && v.shape(1) == x.frames)), "shape", "%d x %d frames give %d", x.chan, x.frames, (int)v.size());
        const float* p = v.ptr<float>();
        for (int i=0; i<x.chan*x.frames; i++)
            MC_CHECK(fabs(p[i] - x.s[i]) <= RES, "sample", "sample %d of %d x %d", i, x.chan, x.frames);
        mc::step(x.frames);
    }
    // Two readers and writers with attributes of their own
    void attributes()
    {
        std::string d = mc::scratch(), f[2] = { d + "/a.wav", d + "/b.wav" };
        Module m;
        var attr[2];
        file* x[2];
        for (int i=0; i<2; i++) { attr[i]["rate"] = i ? 44100 : 8000; x[i] = &m.make(attr[i]); }
        int rate[2] = { 8000, 44100 }, fr[2] = { 0, 0 };
        var v = ref::array(TYPE_FLOAT, { 0.5, -0.5 });
        unlink(f[0].c_str());
        unlink(f[1].c_str());
        int n = mc::range(1, mc::thorough() ? 5 : 4);
        for (int k=0; k<n; k++)
        {
            int i = mc::choose(2), j = mc::choose(2), o = mc::choose(3);
            MC_NOTE("%d %d %d", i, j, o);
            mc::step();
            if (o == 0) { x[i]->write(f[j].c_str(), v); fr[j] = rate[i]; }
            if (o == 1)
            {
                var u;
                bool threw = ref::throws([&]{ u = x[i]->read(f[j].c_str()); });
                MC_CHECK(threw == (fr[j] == 0), "read", "read %s", threw ? "throws" : "of an absent file");
                if (!threw) { rate[i] = fr[j]; same(u, { 1, 2, fr[j], { 0.5f, -0.5f } }, RES, "read"); }
            }
            if (o == 2) { if (j) mc::prune(); attr[i]["rate"] = 11025; rate[i] = 11025; }
            for (int q=0; q<2; q++)
                MC_CHECK(rateOf(attr[q]) == rate[q], "rate", "rate %d is %d instead of %d", q, rateOf(attr[q]), rate[q]);
        }
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::bound("channels", 3);
    mc::bound("frames", th ? 7 : 5);
    mc::add("round trip", [th]{ roundTrip(3, th ? 7 : 5, th ? 12 : 4); });
    mc::add("others", others);
    mc::add("truncated", []{ damaged(true); });
    mc::add("changed", []{ damaged(false); });
    mc::add("failures", failures);
    mc::add("large", large);
    mc::add("attributes", attributes);
    mc::add("leaks", []{ roundTrip(3, 2, 2); }, mc::LEAK);
    mc::add("leaks truncated", []{ damaged(true); }, mc::LEAK);
    mc::add("leaks changed", []{ damaged(false); }, mc::LEAK);
    mc::add("leaks failures", failures, mc::LEAK);
    return mc::run(argc, argv, "C27", "model_checking");
}
