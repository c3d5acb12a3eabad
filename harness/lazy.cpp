// Drives Lazy: the creating functions number the objects they create by the smallest number not alive.
#include <iostream>
#include <optional>
#include "lazy.hpp"
#include "common.hpp"
using namespace Helper;
static const int MAXO = 32;
struct Base { virtual ~Base() { } virtual int id() const = 0; virtual int fun() const = 0; virtual bool ok() const = 0; };
static const void* alive[MAXO]; static int bad = 0;
struct Obj : Base {
    int i, f; unsigned magic = 0x600df00d;
    Obj(int f_) : f(f_) { for (i = 1; alive[i]; ++i) { } alive[i] = this; }
    Obj(Obj const&) = delete;
    ~Obj() override { if (!ok()) ++bad; else alive[i] = nullptr; magic = 0; }
    int id() const override { return i; }
    int fun() const override { return f; }
    bool ok() const override { return magic == 0x600df00d && alive[i] == this; }
};
struct Failed { int f; };
static int calls = 0; static std::vector<int> arm;
template<class O> int run(int argc, char** argv, int S, int F) {
    arm.assign(F + 1, 0);
    std::vector<std::optional<Lazy<O>>> l(S + 1);
    auto func = [&](int f) -> std::function<O*()> {
        return [f]() -> O* { ++calls; if (arm[f] > 0) { --arm[f]; throw Failed{f}; } return new Obj(f); }; };
    auto reset = [&] { for (auto& x : l) x.reset(); for (auto& a : arm) a = 0; };
    auto perform = [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { reset(); if (o.is("end") && memacct::counted != 0) return Out("leak"); memacct::counted = 0; return Out(); }
        Counted c;
        int s = o.i(1);
        if (o.is("arm")) { arm[s] = o.i(2); return Out(); }
        if (o.is("make")) { if (l[s]) return Out("skip"); calls = 0; l[s].emplace(func(o.i(2))); return calls ? Out("called") : Out(); }
        if (o.is("copy")) { auto& t = l[o.i(2)]; if (l[s] || !t) return Out("skip"); calls = 0; Lazy<O> const& from = *t; l[s].emplace(from); return calls ? Out("called") : Out(); }
        if (o.is("move")) { auto& t = l[o.i(2)]; if (l[s] || !t) return Out("skip"); calls = 0; l[s].emplace(std::move(*t)); t.reset(); return calls ? Out("called") : Out(); }
        if (o.is("asg")) { auto& t = l[o.i(2)]; if (!l[s] || !t) return Out("skip"); calls = 0; *l[s] = *t; return calls ? Out("called") : Out(); }
        if (o.is("masg")) { auto& t = l[o.i(2)]; if (!l[s] || !t || s == o.i(2)) return Out("skip"); calls = 0; *l[s] = std::move(*t); t.reset(); return calls ? Out("called") : Out(); }
        if (o.is("del")) { if (!l[s]) return Out("skip"); calls = 0; l[s].reset(); return calls ? Out("called") : Out(); }
        if (o.is("get") || o.is("crowd")) {
            if (!l[s]) return Out("skip");
            Lazy<O> const& z = *l[s]; calls = 0;
            try {
                O const& r = z(); int n = calls;
                if (o.is("crowd")) {
                    std::vector<Lazy<O>> many; int k = o.i(2); many.reserve(size_t(k));
                    for (int j = 0; j < k; ++j) {
                        Lazy<O> const& from = j % 2 ? many.back() : z; many.push_back(from);
                        if (j < 40 || j % 97 == 0 || j + 3 > k) if (&many.back()() != &r || &z() != &r || &many[size_t(j / 2)]() != &r || calls != n) return Out("again");
                    }
                }
                else // further accesses give the same object and create nothing
                for (int k = 1; k < o.i(2); ++k) { O const& q = (*l[s])(); if (&q != &r || calls != n) return Out("again"); }
                if (!r.ok()) return Out("dead");
                { Uncounted u; return Out("ok", js(Ints{n, r.id(), r.fun()})); }
            } catch (Failed const& e) { Uncounted u; return Out("throw", js(Ints{calls})); }
        }
        return Out("badop");
    };
    return run_scripts(argc, argv, perform, [&] {
        Ints p, a; for (int s = 1; s <= S; ++s) p.push_back(l[s] ? 1 : 0); for (int i = 1; i <= S + 1; ++i) a.push_back(alive[i] ? 1 : 0);
        for (int i = S + 2; i < MAXO; ++i) if (alive[i]) ++bad;
        return obj({{"p", js(p)}, {"live", js(a)}, {"bad", js(bad)}}); });
}
int main(int argc, char** argv) {
    // SCRIPT TRACE kind, number of variables, number of functions
    std::string k = argv[3]; int S = atoi(argv[4]), F = atoi(argv[5]);
    if (k == "exact") return run<Obj>(argc, argv, S, F);
    if (k == "const") return run<const Obj>(argc, argv, S, F);
    return run<Base>(argc, argv, S, F);
}
