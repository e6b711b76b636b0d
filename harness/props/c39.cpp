// C39: timers report, once, the time for which they lived.
#include "ref.h"
#include <chrono>
#include <ctime>
#include <iostream>
#include <map>
using namespace libube;
using mc::quote;

// The clock, when it is ours
static bool gOurs = false;
static long gNow = 0;
static int gAsked = 0;
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept
{
    if (gOurs) { gAsked++; return time_point(nanoseconds(gNow)); }
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return time_point(nanoseconds(t.tv_sec * 1000000000L + t.tv_nsec));
}

namespace
{
    struct Ours
    {
        std::ostringstream os;
        std::streambuf* was;
        Ours() { was = std::cout.rdbuf(os.rdbuf()); gOurs = true; gNow = 1000000000000L; }
        ~Ours() { gOurs = false; std::cout.rdbuf(was); }
    };
    struct Live { timer* t; long began; std::string name; };

    // What is printed for some number of nanoseconds
    void expect(const std::string& line, const std::string& name, long ns)
    {
        std::string p = name + ": ";
        MC_CHECK(line.compare(0, p.size(), p) == 0 && line.size() > p.size() + 4 && line.substr(line.size() - 4) == " ms\n", "text",
                 "timer %s prints %s", name.c_str(), quote(line).c_str());
        std::string n = line.substr(p.size(), line.size() - 4 - p.size());
        char* end;
        double ms = strtod(n.c_str(), &end);
        MC_CHECK(*end == 0 && n.size() && n[0] != ' ', "text", "timer %s prints %s", name.c_str(), quote(line).c_str());
        double exact = ns / 1e6;
        // In whole milliseconds, or to some digits
        MC_CHECK(std::fabs(ms - exact) < 1 || std::fabs(ms - exact) <= 1e-5 * exact, "time", "after %ld ns, timer %s prints %s", ns, name.c_str(), quote(line).c_str());
    }

    void histories(int depth, int maxTimers)
    {
        static const long steps[] = { 0, 1, 999999, 1000000, 1500000, 250000000, 3600000000000L, 86400000000000L * 40 };
        static const char* names[] = { "a", "", "a\"b" };
        std::vector<Live> live;
        struct Guard { std::vector<Live>& l; ~Guard() { gOurs = false; for (auto& x : l) if (x.t) delete x.t; } };
        std::ostringstream rest;
        Ours ours;
        {
            Guard guard{ live };
            for (int k=0; k<depth; k++)
            {
                int n = live.size();
                int op = mc::choose(2 + n);
                std::string had = ours.os.str();
                if (op == 0)
                {
                    if (n >= maxTimers) mc::prune();
                    int w = mc::choose(4);
                    var name = w < 3 ? var(names[w]) : var(42);
                    std::ostringstream s;
                    gOurs = false;
                    s << name;
                    gOurs = true;
                    MC_NOTE("timer %s", s.str().c_str());
                    live.push_back({ new timer(name), gNow, s.str() });
                    MC_CHECK(ours.os.str() == had, "text", "a new timer prints %s", quote(ours.os.str()).c_str());
                }
                else if (op == 1)
                {
                    long s = mc::pick(steps);
                    MC_NOTE("%ld ns pass", s);
                    gNow += s;
                }
                else
                {
                    int i = op - 2;
                    Live l = live[i];
                    live.erase(live.begin() + i);
                    MC_NOTE("end of timer %s", l.name.c_str());
                    delete l.t;
                    std::string t = ours.os.str();
                    MC_CHECK(t.compare(0, had.size(), had) == 0, "text", "prints %s", quote(t).c_str());
                    expect(t.substr(had.size()), l.name, gNow - l.began);
                }
                mc::step();
            }
            mc::state(std::to_string(live.size()) + ours.os.str());
            // Then the rest, as when an exception is thrown
            while (live.size())
            {
                Live l = live.back();
                live.pop_back();
                std::string had = ours.os.str();
                delete l.t;
                expect(ours.os.str().substr(had.size()), l.name, gNow - l.began);
            }
        }
    }

    // Nested in scopes, left by an exception or not
    void scopes()
    {
        int throwAt = mc::choose(4);
        Ours ours;
        bool caught = false;
        try
        {
            timer a("a");
            gNow += 2000000;
            if (throwAt == 1) throw error("x");
            {
                timer b("b");
                gNow += 3000000;
                if (throwAt == 2) throw error("x");
            }
            gNow += 4000000;
            if (throwAt == 3) throw error("x");
        }
        catch (error& e) { caught = true; }
        mc::step();
        gOurs = false;
        std::string s = ours.os.str();
        MC_CHECK(caught == (throwAt != 0), "throw", "throw at %d", throwAt);
        size_t nl = s.find('\n') + 1;
        if (throwAt == 1) expect(s, "\"a\"", 2000000);
        else
        {
            expect(s.substr(0, nl), "\"b\"", 3000000);
            expect(s.substr(nl), "\"a\"", throwAt == 2 ? 5000000 : 9000000);
        }
    }
}

int main(int argc, char** argv)
{
    bool th = mc::thorough();
    mc::bound("operations", th ? 7 : 6);
    mc::add("histories", [=]{ histories(th ? 7 : 6, 3); });
    mc::add("scopes", scopes, mc::LEAK);
    mc::add("leaks", []{ histories(3, 2); }, mc::LEAK);
    return mc::run(argc, argv, "C39", "model_checking");
}
