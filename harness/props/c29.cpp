// C29: URL transfers.
// modules: curl-lib
#include "ref.h"
#include <cstdarg>
#include <fstream>
#include <set>
#include <dlfcn.h>
#include <unistd.h>
#include <curl/curl.h>
#include <lube/curl.h>
using namespace libube;
using mc::quote;

/*
 * A stand in for the network library: a transfer delivers what the scenario
 * says, in the pieces that it says, and then fails or does not.  The functions
 * here take precedence over those that the module is linked with; they can
 * also pass the calls on to those.
 */
namespace
{
    struct Handle
    {
        std::string url;
        bool hasUrl = false;
        curl_write_callback write = 0;
        void* data = 0;
        long options = 0;
    };
    std::set<Handle*> gHandles;
    int gGlobal = 0, gPerformed = 0;
    std::string gFault;
    bool gReal = false;
    // The transfer that is to happen
    std::vector<std::string> gPieces;
    CURLcode gCode = CURLE_OK;
    int gFailAfter = -1;             // pieces before the failure
    bool gNoHandle = false, gNoUrl = false;
    std::string gUrl;

    void fault(const std::string& s) { if (gFault.empty()) gFault = s; }
    template<class F> F actual(F, const char* n)
    {
        static void* h = dlopen("libcurl.so.4", RTLD_NOW);
        void* p = h ? dlsym(h, n) : 0;
        if (!p) { fprintf(stderr, "no %s\n", n); abort(); }
        return (F)p;
    }
    Handle* handle(CURL* c, const char* what)
    {
        if (!gHandles.count((Handle*)c)) { fault(std::string(what) + " on a handle that is not open"); return 0; }
        return (Handle*)c;
    }
}
#undef curl_easy_setopt
#undef curl_easy_getinfo
#define REAL(f) actual(&f, #f)
extern "C" CURLcode curl_global_init(long f)
{
    if (gReal) return REAL(curl_global_init)(f);
    gGlobal++;
    return CURLE_OK;
}
extern "C" void curl_global_cleanup()
{
    if (gReal) { REAL(curl_global_cleanup)(); return; }
    if (--gGlobal < 0) fault("global cleanup without initialisation");
    if (!gGlobal && gHandles.size()) fault("global cleanup with handles open");
}
extern "C" CURL* curl_easy_init()
{
    if (gReal) return REAL(curl_easy_init)();
    if (!gGlobal) fault("handle without global initialisation");
    if (gNoHandle) return 0;
    Handle* h = new Handle;
    gHandles.insert(h);
    return (CURL*)h;
}
extern "C" void curl_easy_cleanup(CURL* c)
{
    if (gReal) { REAL(curl_easy_cleanup)(c); return; }
    if (!c) return;
    Handle* h = handle(c, "cleanup");
    gHandles.erase(h);
    delete h;
}
extern "C" CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...)
{
    va_list v;
    va_start(v, o);
    void* a = va_arg(v, void*);
    va_end(v);
    if (gReal) return ((CURLcode (*)(CURL*, CURLoption, ...))REAL(curl_easy_setopt))(c, o, a);
    Handle* h = handle(c, "option");
    if (!h) return CURLE_BAD_FUNCTION_ARGUMENT;
    h->options++;
    switch (o)
    {
    case CURLOPT_URL:
        if (gNoUrl) return CURLE_OUT_OF_MEMORY;
        h->url = (const char*)a;
        h->hasUrl = true;
        break;
    case CURLOPT_WRITEFUNCTION: h->write = (curl_write_callback)a; break;
    case CURLOPT_WRITEDATA: h->data = a; break;
    default: break;
    }
    return CURLE_OK;
}
extern "C" CURLcode curl_easy_perform(CURL* c)
{
    if (gReal) return REAL(curl_easy_perform)(c);
    Handle* h = handle(c, "perform");
    if (!h) return CURLE_BAD_FUNCTION_ARGUMENT;
    gPerformed++;
    if (!h->hasUrl) return CURLE_URL_MALFORMAT;
    if (h->url != gUrl) fault("the URL is " + h->url + " instead of " + gUrl);
    if (!h->write) { fault("nowhere to write to"); return CURLE_WRITE_ERROR; }
    for (int i=0; i<=(int)gPieces.size(); i++)
    {
        if (i == gFailAfter) return gCode;
        if (i == (int)gPieces.size()) break;
        // A buffer of exactly the size, that is gone afterwards
        size_t n = gPieces[i].size();
        char* b = (char*)malloc(n);
        memcpy(b, gPieces[i].data(), n);
        size_t r = h->write(b, 1, n, h->data);
        memset(b, '!', n);
        free(b);
        if (r != n) return CURLE_WRITE_ERROR;
    }
    return CURLE_OK;
}
extern "C" const char* curl_easy_strerror(CURLcode c)
{
    if (gReal) return REAL(curl_easy_strerror)(c);
    static char b[64];
    snprintf(b, sizeof b, "problem number %d", (int)c);
    return b;
}

namespace
{
    void reset()
    {
        for (auto h : gHandles) delete h;
        gHandles.clear();
        gGlobal = gPerformed = 0;
        gFault = "";
        gReal = gNoHandle = gNoUrl = false;
        gCode = CURLE_OK;
        gFailAfter = -1;
        gPieces.clear();
    }
    const char* alphabet[] = { "a", "", "bc", "d\ne", "\0f", "\xc3", "\xa9" };
    std::string piece(int i)
    {
        if (i == 4) return std::string("\0f", 2);
        if (i == 7) return std::string(1, '\0');
        return alphabet[i];
    }
    // Make the transfer, compare with what was delivered
    void transfer(curl& c, const std::string& url, std::vector<var>& got, std::vector<std::string>& want)
    {
        gUrl = url;
        std::string all;
        for (auto& p : gPieces) all += p;
        bool fail = gFailAfter >= 0 || gNoHandle || gNoUrl;
        var v, u = url.c_str();
        std::string msg;
        bool threw = false;
        int was = gPerformed;
        try { v = c.transfer(u); }
        catch (std::exception& e) { threw = true; msg = e.what(); }
        mc::step(gPieces.size() + 1);
        MC_CHECK(gFault.empty(), "protocol", "%s", gFault.c_str());
        MC_CHECK(gHandles.empty(), "handle", "a connection is left open after a transfer that %s", threw ? "fails" : "succeeds");
        MC_CHECK(threw == fail, "throw", "a transfer that %s %s", fail ? "fails" : "succeeds", threw ? "throws" : "does not throw");
        MC_CHECK(ref::strOf(u) == url, "changed", "the URL is changed to %s", ref::show(u).c_str());
        if (gFailAfter >= 0 && !gNoHandle && !gNoUrl)
        {
            std::string m = "problem number " + std::to_string((int)gCode);
            MC_CHECK(msg.find(m) != std::string::npos, "message", "the error says %s rather than %s", quote(msg).c_str(), m.c_str());
        }
        if (!threw)
        {
            MC_CHECK(gPerformed == was + 1, "performed", "%d transfers are made", gPerformed - was);
            got.push_back(v);
            want.push_back(all);
        }
        for (size_t i=0; i<got.size(); i++)
        {
            MC_CHECK((long)got[i].type() == TYPE_ARRAY && (long)got[i].atype() == TYPE_CHAR, "type", "transfer %d is %s", (int)i, ref::show(got[i]).c_str());
            std::string s = ref::strOf(got[i]);
            MC_CHECK(s == want[i], "data", "transfer %d of %s gives %s", (int)i, quote(want[i]).c_str(), quote(s).c_str());
            MC_CHECK(got[i].str()[s.size()] == 0, "terminator", "transfer %d is not terminated", (int)i);
            mc::state(s);
        }
    }
    void ended()
    {
        MC_CHECK(gFault.empty(), "protocol", "%s", gFault.c_str());
        MC_CHECK(gGlobal == 0, "global", "the library is left initialised %d times", gGlobal);
    }
    void failure()
    {
        static const CURLcode code[] = { CURLE_COULDNT_CONNECT, CURLE_PARTIAL_FILE };
        int f = mc::choose(gPieces.size() + 2);
        if (f) { gFailAfter = f - 1; gCode = mc::pick(code); }
    }

    // All divisions, with failure anywhere, twice with one or two connections
    void pieces(int n, int alpha, int transfers)
    {
        reset();
        {
            curlmodule m, m2;
            int how = transfers > 1 ? mc::choose(3) : 0;
            curl* c[2] = { &m.create(), how == 0 ? 0 : how == 1 ? &m.create() : &m2.create() };
            if (!c[1]) c[1] = c[0];
            std::vector<var> got;
            std::vector<std::string> want;
            for (int t=0; t<transfers; t++)
            {
                gPieces.clear();
                gFailAfter = -1;
                int k = mc::range(0, n);
                for (int i=0; i<k; i++) gPieces.push_back(piece(mc::choose(alpha)));
                failure();
                if (mc::gVerbose) { for (auto& p : gPieces) mc::note("deliver %s", quote(p).c_str()); mc::note("fail after %d", gFailAfter); }
                transfer(*c[t % 2], t ? "http://x/?a=%20&b" : "file:///y", got, want);
            }
        }
        ended();
    }
    // Every division of five bytes
    void divisions()
    {
        reset();
        static const char* texts[] = { "hello", "\x01\x02\x00\xff\x80", "\n\n\r\n\n", "\0\0\0\0\0" };
        std::string s(mc::pick(texts), 5);
        std::string cur;
        int n = mc::range(0, 5);
        for (int i=0; i<n; i++)
        {
            cur += s[i];
            if (i == n - 1 || mc::flip())
            {
                gPieces.push_back(cur);
                if (mc::flip()) gPieces.push_back("");
                cur.clear();
            }
        }
        {
            curlmodule m;
            curl& c = m.create();
            std::vector<var> got;
            std::vector<std::string> want;
            auto keep = gPieces;
            failure();
            transfer(c, "u", got, want);
            gFailAfter = -1;
            transfer(c, "u", got, want);
        }
        ended();
    }
    // Large ones
    void large()
    {
        reset();
        static const int size[] = { 15, 16, 1000, 16384, 65536 };
        int k = mc::range(1, 4), n = mc::pick(size);
        for (int i=0; i<k; i++)
        {
            std::string s;
            for (int j=0; j<n + i; j++) s += (char)(j * 7 + i);
            gPieces.push_back(s);
        }
        {
            curlmodule m;
            std::vector<var> got;
            std::vector<std::string> want;
            transfer(m.create(), "u", got, want);
        }
        ended();
    }
    // Failure of the rest of the library
    void setup()
    {
        reset();
        {
            curlmodule m;
            curl& c = m.create();
            std::vector<var> got;
            std::vector<std::string> want;
            for (int i=0; i<3; i++)
            {
                int f = mc::choose(3);
                gNoHandle = f == 1;
                gNoUrl = f == 2;
                gPieces = { "x", std::to_string(i) };
                MC_NOTE("%d", f);
                transfer(c, "u", got, want);
            }
        }
        ended();
    }
    // What is done with the data is not seen by another transfer
    void modified()
    {
        reset();
        {
            curlmodule m;
            curl& c = m.create();
            std::vector<var> got;
            std::vector<std::string> want;
            gPieces.clear();
            int k = mc::choose(3);
            for (int i=0; i<k; i++) gPieces.push_back("ab");
            for (int i=0; i<3; i++)
            {
                transfer(c, "u", got, want);
                int o = mc::choose(4);
                MC_NOTE("%d", o);
                if (o == 1) { got.back().append("more"); want.back() += "more"; }
                if (o == 2) { got.back().push('x'); want.back() += "x"; }
                if (o == 3) { got.back().clear(); got.pop_back(); want.pop_back(); }
            }
        }
        ended();
    }

    // The real library, reading files
    void files()
    {
        reset();
        gReal = true;
        std::string d = mc::scratch();
        static const int size[] = { 0, 1, 255, 256, 1000, 16383, 16384, 16385, 50000, 200000 };
        curlmodule m;
        curl& c = m.create();
        int n = mc::pick(size), twice = mc::choose(2);
        std::string s;
        for (int i=0; i<n; i++) s += (char)(i ^ i >> 8);
        std::ofstream(d + "/f", std::ios::binary) << s;
        MC_NOTE("file of %d bytes", n);
        if (twice)
        {
            std::string msg;
            try { c.transfer(("file://" + d + "/absent").c_str()); }
            catch (std::exception& e) { msg = e.what(); }
            MC_CHECK(msg.size(), "throw", "reading an absent file does not throw");
            std::string want = curl_easy_strerror(CURLE_FILE_COULDNT_READ_FILE);
            MC_CHECK(msg.find(want) != std::string::npos, "message", "an absent file gives %s", msg.c_str());
        }
        var v = c.transfer(("file://" + d + "/f").c_str());
        mc::step(n / 16384 + 1);
        MC_CHECK((long)v.atype() == TYPE_CHAR && (int)v.size() == n && std::string(v.str(), n) == s, "data", "a file of %d bytes gives %d", n, (int)v.size());
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    // Loading all that the network library needs takes time
    dlopen("libcurl.so.4", RTLD_NOW | RTLD_NODELETE);
    mc::bound("pieces", th ? 5 : 4);
    mc::bound("transfers", 2);
    mc::add("one", [th]{ pieces(th ? 5 : 4, 8, 1); });
    mc::add("two", [th]{ pieces(th ? 3 : 2, th ? 6 : 5, 2); });
    mc::add("divisions", divisions);
    mc::add("large", large);
    mc::add("setup", setup);
    mc::add("modified", modified);
    mc::add("files", files);
    mc::add("leaks", []{ pieces(2, 3, 2); }, mc::LEAK);
    mc::add("leaks setup", setup, mc::LEAK);
    return mc::run(argc, argv, "C29", "model_checking", {"the library's functions that the module calls are replaced by a model of their documented behaviour, except in the scenario \"files\""});
}
