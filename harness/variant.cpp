// Drives CodedVariant of 1..16 alternatives with three kinds of codes.
#include <cstdlib>
#include <iostream>
#include <memory>
#include <optional>
#include <sys/wait.h>
#include "variant.hpp"
#include "variant.inl.hpp"
#include "common.hpp"
using namespace Helper;
enum class E : int { };
struct LE { using C = E; static constexpr C code(int i) { return E(i - 1); } static int num(C c) { return int(c); } static C of(int n) { return E(n); } static constexpr const char* name = "enum"; };
struct LC { using C = char; static constexpr C code(int i) { return char(97 + (7 * i) % 26); } static int num(C c) { return c; } static C of(int n) { return char(n); } static constexpr const char* name = "char"; };
struct LI { using C = int; static constexpr C code(int i) { return (37 * i) % 101 - 50; } static int num(C c) { return c; } static C of(int n) { return n; } static constexpr const char* name = "int"; };
template<class L, int I> struct Alt { static constexpr typename L::C code() { return L::code(I); } int index = I; };
struct Holder {
    virtual ~Holder() { }
    virtual std::unique_ptr<Holder> copy() const = 0;
    virtual int code() const = 0; virtual bool holds(int i) const = 0;
    virtual Ints visit(std::string const& how) const = 0;      // calls, alternative, result
};
static int calls = 0, seen = 0; static bool die = false; static int table[32];
struct Called { void operator()(int i) const { if (die) _exit(3); ++calls; seen = i; } };
struct ValVisitor { template<class A> int operator()(A const& a) const { Called()(a.index); return 1000 + a.index; } };
struct RefVisitor { template<class A> int& operator()(A const& a) { Called()(a.index); return table[a.index]; } };   // not a constant operation
struct VoidVisitor { template<class A> void operator()(A const& a) const { Called()(a.index); } };
template<class V> struct Make;
template<class L, int... I> struct Var : Holder {
    using C = typename L::C; using CV = CodedVariant<C, Alt<L, I>...>;
    CV v;
    Var(CV const& v_) : v(v_) { }
    static std::unique_ptr<Holder> from_code(int c) { return std::make_unique<Var>(CV(L::of(c))); }
    static std::unique_ptr<Holder> from_alt(int i) { std::unique_ptr<Holder> r; ((i == I ? (void)(r = std::make_unique<Var>(CV(Alt<L, I>()))) : (void)0), ...); return r; }
    std::unique_ptr<Holder> copy() const override { CV w(v); return std::make_unique<Var>(w); }
    int code() const override { return L::num(v.code()); }
    template<int J> bool h() const { return holds_alternative<Alt<L, J>>(v); }
    template<int... J> bool hh(int i, std::integer_sequence<int, J...>) const { bool r = false; ((i == J + 1 ? (void)(r = h<J + 1>()) : (void)0), ...); return r; }
    bool holds(int i) const override { return hh(i, std::make_integer_sequence<int, 18>()); }
    Ints visit(std::string const& how) const override {
        calls = 0; seen = 0; int r = 0;
        if constexpr (sizeof...(I) == 0) abort();     // no alternatives: not claimed, and a variadic coded_visit need not compile for it
        else if (how == "val") { ValVisitor w; r = v.accept(w); }
        else if (how == "ref") { RefVisitor w; static_assert(std::is_same_v<decltype(v.accept(w)), int&>); int& q = v.accept(w); r = &q >= table && &q < table + 32 ? 1000 + int(&q - table) : -1; }
        else { VoidVisitor w; static_assert(std::is_void_v<decltype(v.accept(w))>); v.accept(w); }
        return {calls, seen, r};
    }
};
template<class L, int N, class = std::make_integer_sequence<int, N>> struct Of;
template<class L, int N, int... J> struct Of<L, N, std::integer_sequence<int, J...>> { using Type = Var<L, (J + 1)...>; };
template<class L, int... N> std::unique_ptr<Holder> make(bool alt, int n, int a, std::integer_sequence<int, N...>) {
    std::unique_ptr<Holder> r; ((n == N ? (void)(r = alt ? Of<L, N>::Type::from_alt(a) : Of<L, N>::Type::from_code(a)) : (void)0), ...); return r; }
using Sizes = std::make_integer_sequence<int, 17>;
int main(int argc, char** argv) {
    int S = atoi(argv[3]); std::vector<std::unique_ptr<Holder>> x(S + 1); Ints n(S + 1, -1);
    auto codeof = [](std::string const& l, int i) { return l == "enum" ? LE::num(LE::code(i)) : l == "char" ? LC::num(LC::code(i)) : LI::num(LI::code(i)); };
    auto mk = [](std::string const& l, bool alt, int n, int a) { return l == "enum" ? make<LE>(alt, n, a, Sizes()) : l == "char" ? make<LC>(alt, n, a, Sizes()) : make<LI>(alt, n, a, Sizes()); };
    auto perform = [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { for (auto& p : x) p.reset(); for (auto& k : n) k = -1; return Out(); }
        int s = o.i(1);
        if (o.is("code")) { if (x[s]) return Out("skip"); x[s] = mk(o.s(2), false, o.i(3), codeof(o.s(2), o.i(4))); n[s] = o.i(3); return Out(); }
        if (o.is("alt")) { if (x[s]) return Out("skip"); x[s] = mk(o.s(2), true, o.i(3), o.i(4)); n[s] = o.i(3); return Out(); }
        if (o.is("odd")) { if (x[s]) return Out("skip"); x[s] = mk(o.s(2), false, o.i(3), 90); n[s] = o.i(3); return Out(); }
        if (o.is("del")) { if (!x[s]) return Out("skip"); x[s].reset(); n[s] = -1; return Out(); }
        if (o.is("cp")) { int t = o.i(2); if (!x[t]) return Out("skip"); auto c = x[t]->copy(); x[s] = std::move(c); n[s] = n[t]; return Out(); }
        if (!x[s]) return Out("skip");
        if (o.is("holds")) return Out("ok", js(Ints{x[s]->holds(o.i(2)) ? 1 : 0}));
        // visit first in a child: it may abort
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            signal(SIGABRT, SIG_DFL); Ints r = x[s]->visit(o.name());
            _exit(r[0] == 0 ? 4 : 5); }
        int st = 0; waitpid(p, &st, 0);
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) {       // aborted: had the visitor been called?
            p = fork();
            if (p == 0) { signal(SIGABRT, SIG_DFL); die = true; x[s]->visit(o.name()); _exit(4); }
            waitpid(p, &st, 0);
            return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? Out("abort") : Out("called"); }
        if (!WIFEXITED(st)) return Out("signal");
        if (WEXITSTATUS(st) == 4) return Out("notcalled");
        return Out("ok", js(x[s]->visit(o.name())));
    };
    return run_scripts(argc, argv, perform, [&] {
        Ints c, m; for (int s = 1; s <= S; ++s) { c.push_back(x[s] ? x[s]->code() : 0); m.push_back(n[s]); }
        return obj({{"c", js(c)}, {"n", js(m)}}); });
}
