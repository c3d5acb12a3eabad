// Drives Helper::List and Helper::LinkedList. Argument 3: list or linked, 4: element type, 5: number of variables.
#include <iostream>
#include <memory>
#include "string.hpp"
#include "container.hpp"
#include "common.hpp"
using namespace Helper;
struct EInt { using T = int; using C = short; static T mk(int v) { return v; } static int un(T const& t) { return t; } static C from(int v) { return C(v); } };
struct EStr { using T = String; using C = const char*;
    static inline const char* lit[] = {"", "one", "two and a much longer text that does not fit inside", "three"};
    static T mk(int v) { return v >= 0 && v < 4 ? String(lit[v]) : String("#" + std::to_string(v)); }
    static int un(T const& t) { for (int k = 0; k < 4; ++k) if (t == lit[k]) return k; return t.size() > 1 && t[0] == '#' ? std::atoi(t.c_str() + 1) : -999; }
    static C from(int v) { return lit[v]; } };
struct ETra { using T = Tracked; using C = int; static T mk(int v) { return Tracked(v); } static int un(T const& t) { return t.get(); } static C from(int v) { return v; } };
struct EBool { using T = bool; using C = int; static T mk(int v) { return v != 0; } static int un(T t) { return t ? 1 : 0; } static C from(int v) { return v; } };
struct EByte { using T = signed char; using C = int; static T mk(int v) { return T(v == 0 ? 0 : v == 1 ? -1 : 100 + v); } static int un(T t) { return t == 0 ? 0 : t == -1 ? 1 : t - 100; } static C from(int v) { return mk(v); } };
struct alignas(64) Wide { int v; char pad[260]; Wide() : Wide(0) { } Wide(int x) : v(x) { for (auto& c : pad) c = char(x + 3); }
    bool whole() const { for (char c : pad) if (c != char(v + 3)) return false; return reinterpret_cast<std::uintptr_t>(this) % 64 == 0; } };
struct EWide { using T = Wide; using C = int; static T mk(int v) { return Wide(v); } static int un(T const& t) { return t.whole() ? t.v : -999; } static C from(int v) { return v; } };
template<class E> struct Expl { int v; explicit operator typename E::T() const { return E::mk(v); } };

template<class E, bool LINKED> int drive(int argc, char** argv) {
    using T = typename E::T;
    using L = std::conditional_t<LINKED, LinkedList<T>, List<T>>;
    int ns = std::atoi(argv[5]); std::vector<L> s(size_t(ns + 1));
    auto perform = [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { for (auto& l : s) l = L(); return Out(); }
        std::string n = o.name(); L& a = s[size_t(o.i(1))];
        auto seq = [&] { std::vector<T> v; for (int x : o.ints(2)) v.push_back(E::mk(x)); return v; };
        auto at = [&](size_t k) -> L& { return s[size_t(o.i(k))]; };
        if (n == "rep") { T x = E::mk(o.i(3)); L l(static_cast<unsigned int>(o.i(2)), x); a = l; return Out(); }
        if (n == "copy") { L l(at(2)); a = l; return Out(); }
        if (n == "range") { auto v = seq(); L l(v.begin(), v.end()); a = l; return Out(); }
        if (n == "conv") { List<typename E::C> v; for (int x : o.ints(2)) v.push_back(E::from(x)); L l(v); a = l; return Out(); }
        if (n == "app") { T x = E::mk(o.i(2)); a.append(x); return Out(); }
        if (n == "appown") { if (size_t(o.i(2)) > a.size()) return Out("skip"); auto it = a.begin(); std::advance(it, o.i(2) - 1); a.append(*it); return Out(); }
        if (n == "applist") { L const& b = at(2); a.append(b); return Out(); }
        if (n == "conc") { L const& b = at(2); a.concatenate(b); return Out(); }
        if constexpr (LINKED) {
            if (n == "def") { L l(static_cast<unsigned int>(o.i(2))); a = l; return Out(); }
            if (n == "of") { L l; l.append(E::mk(o.i(2))); a = l; return Out(); } }
        else {
            if (n == "of") { T x = E::mk(o.i(2)); L l(x); a = l; return Out(); }
            if (n == "copyval") { T x = E::mk(o.i(2)); auto f = [](List<T> l) { return l; }; a = f(x); return Out(); }
            if (n == "vec") { L l(seq()); a = l; return Out(); }
            if (n == "init") { auto v = seq(); switch (v.size()) { case 0: a = L({}); break; case 1: { L l{v[0]}; a = l; break; } case 2: { L l{v[0], v[1]}; a = l; break; }
                case 3: { L l{v[0], v[1], v[2]}; a = l; break; } default: { L l{v[0], v[1], v[2], v[3]}; a = l; } } return Out(); }
            if (n == "expl") { using X = std::conditional_t<std::is_same_v<T, bool>, int, Expl<E>>; std::vector<X> v; for (int x : o.ints(2)) v.push_back(X{x}); L l(v); a = l; return Out(); }
            if (n == "cat") { a = catenate(at(2), at(3)); return Out(); }
            if (n == "cat1") { T x = E::mk(o.i(3)); a = catenate(at(2), x); return Out(); }
            Ints log; int f = n == "elem2" ? o.i(3) : o.i(2);
            auto f1 = [&](T const& x) { int v = E::un(x); log.push_back(v); return std::to_string(f == 1 ? 2 * v + 1 : f == 2 ? 7 : f == 3 ? -v : 1000 * v + int(log.size())); };
            auto f2 = [&](T const& x, T const& y) { int v = E::un(x), w = E::un(y); log.push_back(v); log.push_back(w); return std::to_string(f == 1 ? 10 * v + w : f == 2 ? v - w : 1000 * (10 * v + w) + int(log.size() / 2)); };
            auto res = [&](List<std::string> const& r) { Ints q; for (auto& t : r) q.push_back(std::stoi(t)); return Out("ok", arr({js(q), js(log)})); };
            if (n == "apply") { L const& c = a; return res(Helper::apply(f1, c)); }
            if (n == "elem") { L const& c = a; return res(elementwise(f1, c)); }
            if (n == "elem2") { L const& c = a; L const& d = at(2); if (c.size() != d.size()) return Out("skip"); return res(elementwise(f2, c, d)); }
        }
        return Out("badop");
    };
    auto observe = [&]() -> std::string {
        std::vector<std::string> r;
        for (int i = 1; i <= ns; ++i) { Ints e; for (auto const& x : s[size_t(i)]) e.push_back(E::un(x)); r.push_back(obj({{"n", js(int(s[size_t(i)].size()))}, {"e", js(e)}})); }
        return obj({{"a", arr(r)}, {"bad", js(Tracked::bad)}});
    };
    return run_scripts(argc, argv, perform, observe);
}
int main(int argc, char** argv) {
    std::string k = argv[3], e = argv[4];
#ifdef DRIVE_LINKED
    if (e == "int") return drive<EInt, true>(argc, argv);
    if (e == "str") return drive<EStr, true>(argc, argv);
    if (e == "bool") return drive<EBool, true>(argc, argv);
    if (e == "byte") return drive<EByte, true>(argc, argv);
    if (e == "wide") return drive<EWide, true>(argc, argv);
    return drive<ETra, true>(argc, argv);
#else
    if (e == "int") return drive<EInt, false>(argc, argv);
    if (e == "str") return drive<EStr, false>(argc, argv);
    if (e == "bool") return drive<EBool, false>(argc, argv);
    if (e == "byte") return drive<EByte, false>(argc, argv);
    if (e == "wide") return drive<EWide, false>(argc, argv);
    return drive<ETra, false>(argc, argv);
#endif
}
