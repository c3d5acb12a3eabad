// Drives Helper::Map. Argument 3: element type, 4: number of variables.
#include <iostream>
#include <memory>
#include "string.hpp"
#include "container.hpp"
#include "common.hpp"
using namespace Helper;
struct EInt { using K = int; using T = int; using C = short; static K key(int k) { return k; } static int unk(K k) { return k; }
    static T mk(int v) { return v; } static int un(T const& t) { return t; } static C from(int v) { return C(v); } };
struct EStr { using K = String; using T = String; using C = const char*;
    static K key(int k) { return String(std::string(size_t(k), 'k')); } static int unk(K const& k) { return int(k.size()); }
    static inline const char* lit[] = {"", "one", "two and a much longer text that does not fit inside", "three"};
    static T mk(int v) { return String(lit[v]); } static int un(T const& t) { for (int k = 0; k < 4; ++k) if (t == lit[k]) return k; return -999; }
    static C from(int v) { return lit[v]; } };
struct ETra { using K = Tracked; using T = Tracked; using C = int; static K key(int k) { return Tracked(k); } static int unk(K const& k) { return k.get(); }
    static T mk(int v) { return Tracked(v); } static int un(T const& t) { return t.get(); } static C from(int v) { return v; } };
template<class E> int drive(int argc, char** argv) {
    using T = typename E::T; using K = typename E::K; using C = typename E::C; using M = Map<K, T>;
    int ns = std::atoi(argv[4]); std::vector<M> s(size_t(ns + 1));
    auto perform = [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { for (auto& x : s) x = M(); return Out(); }
        std::string n = o.name(); M& a = s[size_t(o.i(1))]; M const& ca = a;
        auto at = [&](size_t k) -> M const& { return s[size_t(o.i(k))]; };
        auto kset = [&](size_t k) { Set<K> r; for (int x : o.ints(k)) r.insert(E::key(x)); return r; };
        auto one = [](int v) { return Out("ok", js(Ints{v})); };
        if (n == "make") { Ints q = o.ints(2); M r; for (size_t i = 0; i + 1 < q.size(); i += 2) r.insert(std::make_pair(E::key(q[i]), E::mk(q[i + 1]))); a = r; return Out(); }
        if (n == "conv") { Ints q = o.ints(2); std::map<K, C> m; for (size_t i = 0; i + 1 < q.size(); i += 2) m.insert(std::make_pair(E::key(q[i]), E::from(q[i + 1]))); M r(m); a = r; return Out(); }
        if (n == "copy") { M r(at(2)); a = r; return Out(); }
        if (n == "adjoin") { a.adjoin(at(2)); return Out(); }
        if (n == "join") { M r = join(at(2), at(3)); a = r; return Out(); }
        if (n == "keys") { Set<K> r = ca.keys(); Ints q; for (auto const& x : r) q.push_back(E::unk(x)); return Out("ok", js(q)); }
        if (n == "vals") { List<T> r = ca.values(); Ints q; for (auto const& x : r) q.push_back(E::un(x)); return Out("ok", js(q)); }
        if (n == "remk") { a.remove_keys(kset(2)); return Out(); }
        if (n == "remown") { a.remove_keys(at(2).keys()); return Out(); }
        if (n == "resk") { M r = restrict_keys(at(2), kset(3)); a = r; return Out(); }
        K k = E::key(o.i(2)); T v = E::mk(o.f.size() > 3 ? o.i(3) : 0);
        try {
            if (n == "insp") { std::pair<K, T> p(k, v); a.insert(p); return Out(); }
            if (n == "inskv") { a.insert(k, v); return Out(); }
            if (n == "insstd") { a.insert({typename M::value_type(k, v)}); return Out(); }
            if (n == "fins") { T& r = Helper::insert(a, k, v); return &r == &a.find(k)->second ? one(E::un(r)) : Out("badref"); }
            if (n == "put") { a[k] = v; return Out(); }
            if (n == "idx") { T& r = a[k]; return one(E::un(r)); }
            if (n == "setval") { a.value(k) = v; return Out(); }
            if (n == "cidx") return one(E::un(ca[k]));
            if (n == "get") return one(E::un(ca.get(k)));
            if (n == "val") return one(E::un(a.value(k)));
            if (n == "cval") return one(E::un(ca.value(k)));
            if (n == "has") return one(ca.has_key(k));
        } catch (std::runtime_error const&) { return Out("throw"); }
        return Out("badop");
    };
    auto observe = [&]() -> std::string {
        std::vector<std::string> r;
        for (int i = 1; i <= ns; ++i) { Ints k, v; for (auto const& x : s[size_t(i)]) { k.push_back(E::unk(x.first)); v.push_back(E::un(x.second)); }
            r.push_back(obj({{"n", js(int(s[size_t(i)].size()))}, {"k", js(k)}, {"v", js(v)}})); }
        return obj({{"a", arr(r)}, {"bad", js(Tracked::bad)}});
    };
    return run_scripts(argc, argv, perform, observe);
}
int main(int argc, char** argv) {
    std::string e = argv[3];
    if (e == "int") return drive<EInt>(argc, argv);
    if (e == "str") return drive<EStr>(argc, argv);
    return drive<ETra>(argc, argv);
}
