// Drives Helper::SharedArray. Argument 3: the element type, 4: the number of variables.
#include <iostream>
#include <memory>
#include <vector>
#include "string.hpp"
#include "array.hpp"
#include "common.hpp"
using namespace Helper;
struct EInt { using T = int; static T mk(int v) { return v; } static int un(T const& t) { return t; } static constexpr bool life = false; };
struct ETra { using T = Tracked; static T mk(int v) { return Tracked(v); } static int un(T const& t) { return t.get(); } static constexpr bool life = true; };
// every initialiser list needs a length known to the compiler
template<class T, size_t... I, class F> void list_of(std::vector<T> const& v, std::index_sequence<I...>, F const& f) { f(InitializerList<T>{v[I]...}); }
template<size_t N, class T, class F> bool with_list(std::vector<T> const& v, F const& f) {
    if constexpr (N == 0) { if (v.empty()) { f(InitializerList<T>()); return true; } return false; }
    else { if (v.size() == N) { list_of(v, std::make_index_sequence<N>(), f); return true; } return with_list<N - 1>(v, f); }
}
template<class E> int drive(int argc, char** argv) {
    using T = typename E::T; using A = SharedArray<T>;
    int ns = std::atoi(argv[4]); std::vector<A*> s(size_t(ns + 1), nullptr);
    auto perform = [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { for (auto& p : s) { delete p; p = nullptr; } return Out(); }
        std::string n = o.name(); bool armed = n[0] == 'f'; if (armed) n = n.substr(1);
        A*& a = s[size_t(o.i(1))];
        bool mk = n.substr(0, 2) == "mk" || n == "huge", two = n == "mkcopy" || n == "cp";
        if (mk ? a != nullptr : a == nullptr) return Out("skip");
        A* b = two ? s[size_t(o.i(2))] : nullptr; if (two && !b) return Out("skip");
        std::vector<T> v; if (n == "mklist" || n == "asgl") for (int x : o.ints(2)) v.push_back(E::mk(x));
        constexpr size_t SZ = sizeof(T), TOP = ~size_t(0), WRAP = TOP / SZ + 1;   // as in array.cpp
        constexpr size_t MANY[] = {WRAP, WRAP + 2, TOP, TOP / 2 + 1, TOP / 2 / SZ};
        T x = E::mk(n == "mknx" ? armed ? 1 : o.i(3) : n == "wr" ? o.i(4) : 0);
        if (n == "wr" && size_t(o.i(2)) >= a->size()) return Out("skip");
        Counted c;
        auto list = [&](auto f) { with_list<17>(v, f); };
        if (n == "crowd") {
            size_t k = size_t(o.i(2)); Ints seen;
            T y = E::mk(o.i(3)); std::vector<std::unique_ptr<A>> c; c.reserve(k);
            for (size_t j = 0; j < k; ++j) { A const& from = j % 2 ? *c[j - 1] : *a; c.push_back(std::make_unique<A>(from)); }
            if (c[k / 2]->size()) (*c[k / 2])[0] = y;
            delete a; a = nullptr;
            for (T const& t : *c[k - 1]) seen.push_back(E::un(t));
            a = new A(*c[k / 3]);
            for (size_t j = 0; j < k; ++j) if (j % 3) c[j].reset();   // some first, the others with the vector
            return Out("ok", js(seen));
        }
        struct Disarm { ~Disarm() { Tracked::armed = 0; } } disarm;
        if (n == "huge") {
            volatile size_t k = MANY[o.i(2)];
            try { a = o.i(3) ? new A(k, x) : new A(k); return Out(); }
            catch (std::bad_alloc const&) { return Out("refused"); } catch (std::length_error const&) { return Out("refused"); }
        }
        if (armed && n != "mklist" && n != "asgl") Tracked::armed = o.i(3);   // for the others, once the list is made
        try {
        if (n == "mkn") { a = new A(size_t(o.i(2))); if (!E::life) for (auto& y : *a) y = T(); }
        else if (n == "mknx") a = new A(size_t(o.i(2)), x);
        else if (n == "mklist") list([&](InitializerList<T> const& l) { if (armed) Tracked::armed = o.i(3); a = new A(l); });
        else if (n == "asgl") list([&](InitializerList<T> const& l) { if (armed) Tracked::armed = o.i(3); *a = A(l); });
        else if (n == "mkcopy") { A const& cb = *b; a = new A(cb); }
        else if (n == "cp") { A const& cb = *b; A& r = (*a = cb); if (&r != a) return Out("badref"); }
        else if (n == "del") { delete a; a = nullptr; }
        else if (n == "wr") { if (o.i(3) == 0) (*a)[size_t(o.i(2))] = x; else *(a->begin() + o.i(2)) = x; }
        else return Out("badop");
        } catch (Fault const&) { return Out("fault"); }
        return armed && E::life && Tracked::armed == 0 ? Out("swallowed") : Out();
    };
    auto observe = [&]() -> std::string {
        std::vector<std::string> r; bool any = false;
        for (int i = 1; i <= ns; ++i) {
            Ints e, it; A* a = s[size_t(i)];
            if (a) {
                any = true; A const& c = *a; if (c.size() > 100000) throw 1;
                for (size_t j = 0; j < c.size(); ++j) e.push_back(E::un((*a)[j]) == E::un(c[j]) ? E::un(c[j]) : -888);
                for (auto p = c.begin(); p != c.end(); ++p) it.push_back(E::un(*p));
                size_t k = 0; for (auto p = a->begin(); p != a->end(); ++p, ++k) if (E::un(*p) != it.at(k)) it[k] = -888;
            }
            r.push_back(obj({{"p", js(a ? 1 : 0)}, {"n", js(a ? int(a->size()) : 0)}, {"e", js(e)}, {"it", js(it)}}));
        }
        return obj({{"a", arr(r)}, {"live", js(E::life ? Tracked::live : 0)}, {"lost", js(std::vector<long>{any ? 0 : memacct::counted, Tracked::bad})}});
    };
    return run_scripts(argc, argv, perform, observe);
}
int main(int argc, char** argv) { return std::string(argv[3]) == "int" ? drive<EInt>(argc, argv) : drive<ETra>(argc, argv); }
