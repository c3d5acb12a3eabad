// Drives Stopwatch against clocks of our own.
#include <ctime>
#include <sys/time.h>
#include <cmath>
#include <memory>
#include "common.hpp"
static timespec now = {1000, 0}; static long wall = 0; static bool slow = false; static int reads = 0;
static timespec at(bool real) { timespec t = now; if (real) t.tv_sec += wall + 100000; if (slow) { now.tv_sec += 1; } ++reads; return t; }
extern "C" int clock_gettime(clockid_t id, timespec* t) { *t = at(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI); return 0; }
extern "C" int gettimeofday(timeval* t, void*) __THROW { timespec s = at(true); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
extern "C" time_t time(time_t* t) __THROW { timespec s = at(true); if (t) *t = s.tv_sec; return s.tv_sec; }
#include "stopwatch.hpp"
using namespace Helper;
struct Any {
    virtual ~Any() { }
    virtual bool restart() = 0; virtual bool click() = 0; virtual bool chain() = 0;
    virtual std::vector<long> read() const = 0; virtual std::vector<long> secs() const = 0;
    virtual int unit() const = 0; virtual std::unique_ptr<Any> clone() const = 0;
};
template<class D, long U> struct W : Any {
    Stopwatch<D> w;
    bool restart() override { return &w.restart() == &w; }
    bool click() override { return &w.click() == &w; }
    bool chain() override { return &w.restart().click() == &w; }
    static std::vector<long> split(long long c) { long long s = c / U, u = c % U; if (u < 0) { u += U; --s; } return {long(s), long(u)}; }
    std::vector<long> read() const override { D d = w.duration(); return split(d.count()); }
    std::vector<long> secs() const override { return split(llround(w.elapsed_seconds() * double(U))); }
    int unit() const override { return U; }
    std::unique_ptr<Any> clone() const override { return std::make_unique<W>(*this); }
};
int main(int argc, char** argv) {
    int S = atoi(argv[3]);
    const timespec amounts[] = {{0, 0}, {0, 1}, {0, 999}, {0, 1000}, {0, 999999}, {0, 1000000}, {0, 500000000}, {0, 999999999}, {1, 0}, {59, 999999999}, {3600, 1}, {100000, 123456789}, {30000000, 0}};
    const long steps[] = {0, -3600, 3600, -100000, -1, 1};
    { int r = reads; (void)std::chrono::steady_clock::now(); (void)std::chrono::system_clock::now(); if (reads != r + 2) { fprintf(stderr, "driver: clocks not replaced\n"); return 2; } }
    std::vector<std::unique_ptr<Any>> w(S + 1);
    return run_scripts(argc, argv, [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { for (auto& x : w) x.reset(); now = {1000, 0}; wall = 0; return Out(); }
        if (o.is("pass")) { timespec a = amounts[o.i(1)]; now.tv_sec += a.tv_sec; now.tv_nsec += a.tv_nsec; if (now.tv_nsec >= 1000000000) { now.tv_nsec -= 1000000000; ++now.tv_sec; } return Out(); }
        if (o.is("jump")) { wall += steps[o.i(1)]; return Out(); }
        int s = o.i(1);
        if (o.is("make")) {
            w[s].reset();
            if (o.i(2) == 1) w[s] = std::make_unique<W<Seconds, 1>>(); else if (o.i(2) == 1000) w[s] = std::make_unique<W<Milliseconds, 1000>>(); else w[s] = std::make_unique<W<Microseconds, 1000000>>();
            return Out();
        }
        if (o.is("cp")) { int t = o.i(2); if (s != t) w[s] = w[t] ? w[t]->clone() : nullptr; return Out(); }
        if (!w[s]) return Out("skip");
        Any& x = *w[s]; bool r;
        if (o.is("restart")) r = x.restart();
        else if (o.is("click")) r = x.click();
        else if (o.is("chain")) r = x.chain();
        else if (o.is("slowrestart") || o.is("slowclick")) {
            timespec was = now; slow = true; r = o.is("slowclick") ? x.click() : x.restart(); slow = false; now = was; ++now.tv_sec;
        }
        else if (o.is("secs")) return Out("ok", js(x.secs()));
        else return Out("badop");
        return Out("ok", js(Ints{r}));
    }, [&] {
        Ints u; std::vector<std::vector<long>> r;
        for (int s = 1; s <= S; ++s) { u.push_back(w[s] ? w[s]->unit() : 0); r.push_back(w[s] ? w[s]->read() : std::vector<long>{0, 0}); }
        return obj({{"u", js(u)}, {"r", js(r)}, {"wall", js(wall)}});
    });
}
