// Drives Helper::Set. Argument 3: element type, 4: number of variables.
#include <iostream>
#include <memory>
#include "string.hpp"
#include "container.hpp"
#include "common.hpp"
using namespace Helper;
struct EInt { using T = int; using C = short; static T mk(int v) { return v; } static int un(T const& t) { return t; } static C from(int v) { return C(v); } };
struct EStr { using T = String; using C = const char*;   // order of the texts is the order of the numbers; 2 is long
    static std::string text(int v) { std::string t(size_t(v / 20), 'z'); v %= 20; return v == 0 ? t : t + char('a' + v) + (v == 2 ? ", a much longer text that does not fit inside" : ""); }
    static T mk(int v) { return String(text(v)); }
    static int un(T const& t) { static std::map<std::string, int> all = [] { std::map<std::string, int> m; for (int k = 0; k < 400; ++k) m[text(k)] = k; return m; }(); auto i = all.find(t); return i == all.end() ? -999 : i->second; }
    static C from(int v) { static std::map<int, std::string> kept; return kept.emplace(v, text(v)).first->second.c_str(); } };
struct ETra { using T = Tracked; using C = int; static T mk(int v) { return Tracked(v); } static int un(T const& t) { return t.get(); } static C from(int v) { return v; } };
template<class E> struct Expl { int v; explicit operator typename E::T() const { return E::mk(v); } friend bool operator<(Expl a, Expl b) { return a.v < b.v; } };
template<class E> int drive(int argc, char** argv) {
    using T = typename E::T; using C = typename E::C; int ns = std::atoi(argv[4]); std::vector<Set<T>> s(size_t(ns + 1));
    auto perform = [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { for (auto& x : s) x = Set<T>(); return Out(); }
        std::string n = o.name(); Set<T>& a = s[size_t(o.i(1))]; Set<T> const& ca = a;
        auto at = [&](size_t k) -> Set<T>& { return s[size_t(o.i(k))]; };
        auto seq = [&](size_t k) { std::vector<T> v; for (int x : o.ints(k)) v.push_back(E::mk(x)); return v; };
        auto ask = [](bool x, bool y) { return Out("ok", js(Ints{x, y})); };
        if (n == "vec") { Set<T> r(seq(2)); a = r; return Out(); }
        if (n == "range") { auto v = seq(2); Set<T> r(v.begin(), v.end()); a = r; return Out(); }
        if (n == "init") { auto v = seq(2); switch (v.size()) { case 0: a = Set<T>({}); break; case 1: a = Set<T>({v[0]}); break; case 2: a = Set<T>({v[0], v[1]}); break;
            case 3: a = Set<T>({v[0], v[1], v[2]}); break; default: a = Set<T>({v[0], v[1], v[2], v[3]}); } return Out(); }
        if (n == "initconv") { std::vector<C> v; for (int x : o.ints(2)) v.push_back(E::from(x)); auto mk = [&](std::initializer_list<C> const& q) { Set<T> r(q); a = r; };
            switch (v.size()) { case 0: mk({}); break; case 1: mk({v[0]}); break; case 2: mk({v[0], v[1]}); break; case 3: mk({v[0], v[1], v[2]}); break; default: mk({v[0], v[1], v[2], v[3]}); } return Out(); }
        if (n == "conv") { std::vector<C> v; for (int x : o.ints(2)) v.push_back(E::from(x)); Set<T> r(v); a = r; return Out(); }
        if (n == "setconv") { std::set<C> v; for (int x : o.ints(2)) v.insert(E::from(x)); Set<T> r(v); a = r; return Out(); }
        if (n == "setexpl") { std::set<Expl<E>> v; for (int x : o.ints(2)) v.insert(Expl<E>{x}); Set<T> r(v); a = r; return Out(); }
        if (n == "copy") { Set<T> r(at(2)); a = r; return Out(); }
        if (n == "ins") { T x = E::mk(o.i(2)); a.insert(x); return Out(); }
        if (n == "adjoin") { return Out(&a.adjoin(at(2)) == &a ? "ok" : "badref"); }
        if (n == "rem1") { T x = E::mk(o.i(2)); auto it = a.find(x); Set<T>& r = it != a.end() ? a.remove(*it) : a.remove(x); return Out(&r == &a ? "ok" : "badref"); }
        if (n == "rem") { return Out(&a.remove(at(2)) == &a ? "ok" : "badref"); }
        if (n == "frem") { std::set<T>& b = a; std::set<T> const& c = at(2); return Out(&Helper::remove(b, c) == &b ? "ok" : "badref"); }
        if (n == "remvec") { auto v = seq(2); return Out(&a.remove(v) == &a ? "ok" : "badref"); }
        if (n == "res") { return Out(&a.restrict(at(2)) == &a ? "ok" : "badref"); }
        if (n == "fres") { std::set<T>& b = a; std::set<T> const& c = at(2); return Out(&Helper::restrict(b, c) == &b ? "ok" : "badref"); }
        if (n == "join") { Set<T> r = join(at(2), at(3)); a = r; return Out(); }
        if (n == "inter") { Set<T> const& x = at(2); Set<T> const& y = at(3); Set<T> r = intersection(x, y); a = r; return Out(); }
        if (n == "intervec") { Set<T> const& x = at(2); auto v = seq(3); Set<T> r = intersection(x, v); a = r; return Out(); }
        if (n == "diff") { Set<T> const& x = at(2); Set<T> const& y = at(3); Set<T> r = difference(x, y); a = r; return Out(); }
        if (n == "has") { T x = E::mk(o.i(2)); return ask(ca.contains(x), contains(ca, x)); }
        if (n == "sub") { Set<T> const& b = at(2); return ask(ca.subset(b), subset(ca, b)); }
        if (n == "disj") { Set<T> const& b = at(2); return ask(ca.disjoint(b), disjoint(ca, b)); }
        if (n == "disjvec") { auto v = seq(2); return ask(ca.disjoint(v), disjoint(ca, v)); }
        if (n == "apply") { int f = o.i(2); auto g = [f](T const& x) { int v = E::un(x); return long(f == 1 ? v + 10 : f == 2 ? v % 2 : 5); };
            Set<long> r = Helper::apply(g, ca); Ints q; for (long x : r) q.push_back(int(x)); return Out("ok", js(q)); }
        if (n == "list") { List<T> l = static_cast<List<T>>(ca); Ints q; for (auto const& x : l) q.push_back(E::un(x)); return Out("ok", js(q)); }
        return Out("badop");
    };
    auto observe = [&]() -> std::string {
        std::vector<Ints> r;
        for (int i = 1; i <= ns; ++i) { Ints e; for (auto const& x : s[size_t(i)]) e.push_back(E::un(x)); r.push_back(e); }
        return obj({{"a", js(r)}, {"bad", js(Tracked::bad)}});
    };
    return run_scripts(argc, argv, perform, observe);
}
int main(int argc, char** argv) {
    std::string e = argv[3];
    if (e == "int") return drive<EInt>(argc, argv);
    if (e == "str") return drive<EStr>(argc, argv);
    return drive<ETra>(argc, argv);
}
