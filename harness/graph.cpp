// Drives a map from nodes to sets of nodes, and a set of nodes that hold lists of nodes, with operands held by entries.
// Arguments 3: map or set, 4: the type of the nodes.
#include <iostream>
#include <vector>
#include "string.hpp"
#include "container.hpp"
#include "common.hpp"
using namespace Helper;
inline int un(int v) { return v; }
inline int un(Tracked const& t) { return t.get(); }
inline int un(std::string const& s) { return std::atoi(s.c_str() + 24); }
template<class K> K mk(int v) { return K(v); }
template<> std::string mk<std::string>(int v) { std::string t = std::to_string(v); return std::string(24, 'x') + std::string(4 - t.size(), '0') + t; }
template<class K> struct Node { K key; List<Node> succ; bool operator<(Node const& o) const { return un(key) < un(o.key); } };
template<class K> struct AsMap {
    Map<K, Set<K>> m;
    using Where = Set<K> const*;
    Where find(int k) const { K q = mk<K>(k); return m.has_key(q) ? &m.value(q) : nullptr; }
    void put(int k, Ints const& v) { Set<K> s; for (int x : v) s.insert(mk<K>(x)); m[mk<K>(k)] = s; }
    void remove(Where w) { m.remove_keys(*w); }
    bool other(Op const& o, Where) {
        K k = mk<K>(o.i(1));
        if (o.is("restk")) { Map<K, Set<K>> r = restrict_keys(m, m.value(k)); m = r; return true; }
        if (o.is("ins")) { m.insert(k, m.value(mk<K>(o.i(2)))); return true; }
        if (o.is("asn")) { m[k] = m.value(mk<K>(o.i(2))); return true; }
        Set<K> const& s = m.value(mk<K>(o.i(2)));
        if (o.is("adj")) { m.value(k).adjoin(s); return true; }
        if (o.is("rem")) { m.value(k).remove(s); return true; }
        if (o.is("res")) { m.value(k).restrict(s); return true; }
        return false;
    }
    template<class F> void each(F f) const { for (auto const& e : m) { std::vector<int> v; for (K const& x : e.second) v.push_back(un(x)); f(un(e.first), v); } }
};
template<class K> struct AsSet {
    Set<Node<K>> s;
    using Where = List<Node<K>> const*;
    static Node<K> leaf(int k) { return Node<K>{mk<K>(k), List<Node<K>>()}; }
    Where find(int k) const { auto i = s.find(leaf(k)); return i == s.end() ? nullptr : &i->succ; }
    void put(int k, Ints const& v) { Node<K> n = leaf(k); for (int x : v) n.succ.append(leaf(x)); s.erase(n); s.insert(n); }
    void remove(Where w) { s.remove(*w); }
    bool other(Op const&, Where) { return false; }
    template<class F> void each(F f) const { for (auto const& n : s) { std::vector<int> v; for (auto const& x : n.succ) v.push_back(un(x.key)); f(un(n.key), v); } }
};
template<class C> int drive(int argc, char** argv) {
    C* c = nullptr;
    auto perform = [&](Op const& o) -> Out {
        if (o.is("end")) { delete c; c = nullptr; return Out(); }
        Counted counted;
        if (o.is("new")) { delete c; c = nullptr; c = new C; return Out(); }
        if (!c) return Out("skip");
        if (o.is("put")) { c->put(o.i(1), o.ints(2)); return Out(); }
        bool first = o.is("remk") || o.is("restk"), both = o.is("adj") || o.is("rem") || o.is("res");
        auto w = c->find(o.i(first ? 1 : 2)); if (!w || (both && !c->find(o.i(1)))) return Out("skip");
        if (o.is("remk")) { c->remove(w); return Out(); }
        return c->other(o, w) ? Out() : Out("badop");
    };
    auto observe = [&]() -> std::string {
        std::vector<std::string> r;
        if (c) c->each([&](int k, std::vector<int> const& v) { r.push_back(arr({js(k), js(v)})); });
        return obj({{"m", arr(r)}, {"lost", js(std::vector<long>{c ? 0 : memacct::counted, Tracked::bad})}});
    };
    return run_scripts(argc, argv, perform, observe);
}
template<template<class> class C> int pick(int argc, char** argv) {
    std::string t = argv[4];
    if (t == "int") return drive<C<int>>(argc, argv);
    if (t == "str") return drive<C<std::string>>(argc, argv);
    return drive<C<Tracked>>(argc, argv);
}
int main(int argc, char** argv) { return std::string(argv[3]) == "map" ? pick<AsMap>(argc, argv) : pick<AsSet>(argc, argv); }
