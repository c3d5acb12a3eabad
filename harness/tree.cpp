// Drives arrays (or shared arrays, lists, linked lists) whose elements hold arrays (and so on) of the same type.
// Arguments 3: array, shared, list or linked, 4: the type of the values, 5: the number of roots.
#include <iostream>
#include <vector>
#include "string.hpp"
#include "array.hpp"
#ifdef DRIVE_LISTS
#include "container.hpp"
#endif
#include "common.hpp"
using namespace Helper;
inline int un(int v) { return v; }
inline int un(Tracked const& t) { return t.get(); }
template<class V> struct ANode { using A = Array<ANode>; V v; A ch; ANode() : v(0) { } explicit ANode(int x) : v(x) { } };
template<class V> struct SNode { using A = SharedArray<SNode>; V v; A ch; SNode() : v(0), ch(0) { } explicit SNode(int x) : v(x), ch(0) { } };
#ifdef DRIVE_LISTS
template<class V> struct LNode { using A = List<LNode>; V v; A ch; LNode() : v(0) { } explicit LNode(int x) : v(x) { } };
template<class V> struct KNode { using A = LinkedList<KNode>; V v; A ch; KNode() : v(0) { } explicit KNode(int x) : v(x) { } };
#endif
template<class N> N& nth(Array<N>& a, size_t k) { return a[k]; }
template<class N> N& nth(SharedArray<N>& a, size_t k) { return a[k]; }
#ifdef DRIVE_LISTS
template<class N> N& nth(List<N>& a, size_t k) { return a[k]; }
template<class N> N& nth(LinkedList<N>& a, size_t k) { return *std::next(a.begin(), long(k)); }
#endif
enum Kind { ARRAY, SHARE, LISTS };
template<class N, Kind KIND, bool LIFE> int drive(int argc, char** argv) {
    using A = typename N::A; constexpr bool SHARED = KIND == SHARE;
    size_t ns = size_t(std::atoi(argv[5])); std::vector<A*> root(ns + 1, nullptr);
    auto none = []() { if constexpr (SHARED) return A(size_t(0)); else return A(); };
    auto clear = [&]() { for (auto& p : root) { delete p; p = nullptr; } };
    auto at = [&](Ints const& p) -> A* {
        if (p.empty() || p[0] < 1 || size_t(p[0]) > ns) return nullptr;
        A* a = root[size_t(p[0])];
        for (size_t k = 1; k < p.size(); ++k) { if (!a || p[k] < 1 || size_t(p[k]) > a->size()) return nullptr; a = &nth(*a, size_t(p[k] - 1)).ch; }
        return a;
    };
    auto perform = [&](Op const& o) -> Out {
        struct Disarm { ~Disarm() { Tracked::armed = 0; } } disarm;
        if (o.is("end")) { clear(); return Out(); }
        if (o.is("new")) { clear(); Counted c; for (size_t i = 1; i <= ns; ++i) root[i] = new A(none()); return Out(); }
        Ints pp = o.ints(1); A* p = at(pp); if (!p) return Out("skip");
        if (o.is("grow")) {
            size_t n = size_t(o.i(2)); int x = o.i(3); Counted c;
            if constexpr (SHARED) { *p = A(n); for (N& e : *p) e.v = x; } else *p = A(static_cast<unsigned>(n), N(x));
            return Out();
        }
        if (o.is("set")) { size_t k = size_t(o.i(2)); if (k < 1 || k > p->size()) return Out("skip"); Counted c; nth(*p, k - 1).v = o.i(3); return Out(); }
        if constexpr (KIND == ARRAY) { if (o.is("resize")) { Counted c; p->resize(size_t(o.i(2))); return Out(); } }
        Ints qq = o.ints(2); A* q = at(qq); if (!q) return Out("skip");
        auto under = [](Ints const& a, Ints const& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); };
        bool same = pp == qq, within = under(pp, qq), around = under(qq, pp);
        int after = o.is("fcopy") ? o.i(3) : 0;
        Counted c;
        if constexpr (KIND == LISTS) {
            A const& from = *q;
            if (o.is("app")) { p->append(from); return Out(); }
            if (o.is("conc")) { p->concatenate(from); return Out(); }
            if (o.is("app1")) { size_t k = size_t(o.i(3)); if (k < 1 || k > q->size()) return Out("skip"); N const& n = nth(*q, k - 1); p->append(n); return Out(); }
            return Out("badop");
        }
        if (o.is("copy")) { A const& from = *q; A& r = (*p = from); return Out(&r == p ? "ok" : "badref"); }
        if constexpr (KIND == ARRAY) {
            if (o.is("fcopy")) {
                Tracked::armed = after;
                try { A const& from = *q; *p = from; } catch (Fault const&) { *p = A(); return Out("fault"); }
                return Tracked::armed == 0 ? Out("swallowed") : Out();
            }
            if (o.is("move")) { if (around && !same) return Out("skip"); A& r = (*p = std::move(*q)); if (&r != p) return Out("badref"); if (!within) *q = A(); return Out(); }
            if (o.is("swap")) { if ((around || within) && !same) return Out("skip"); p->swap(*q); return Out(); }
        }
        return Out("badop");
    };
    std::function<std::string(A const&)> dump = [&](A const& a) {
        std::vector<std::string> r; if (a.size() > 100000) throw 1;
        for (N const& n : a) r.push_back(arr({js(un(n.v)), dump(n.ch)}));
        return arr(r);
    };
    auto observe = [&]() -> std::string {
        std::vector<std::string> r; bool any = false;
        for (size_t i = 1; i <= ns; ++i) { any = any || root[i]; r.push_back(root[i] ? dump(*root[i]) : std::string("[]")); }
        return obj({{"a", arr(r)}, {"live", js(LIFE ? Tracked::live : 0)}, {"lost", js(std::vector<long>{any ? 0 : memacct::counted, Tracked::bad})}});
    };
    return run_scripts(argc, argv, perform, observe);
}
template<template<class> class N, Kind KIND> int pick(int argc, char** argv) {
    return std::string(argv[4]) == "tracked" ? drive<N<Tracked>, KIND, true>(argc, argv) : drive<N<int>, KIND, false>(argc, argv);
}
int main(int argc, char** argv) {
    std::string kind = argv[3];
#ifdef DRIVE_LISTS
    return kind == "list" ? pick<LNode, LISTS>(argc, argv) : pick<KNode, LISTS>(argc, argv);
#else
    return kind == "shared" ? pick<SNode, SHARE>(argc, argv) : pick<ANode, ARRAY>(argc, argv);
#endif
}
