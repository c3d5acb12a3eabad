// Drives container conversions, unique_elements, duplicate_elements, complement. Argument 3: element type.
#include <iostream>
#include <memory>
#include "string.hpp"
#include "container.hpp"
#include "common.hpp"
using namespace Helper;
static Ints converted;    // values converted from one element type to another, in order
struct EInt { using T = int; static T mk(int v) { return v; } static int un(T const& t) { return t; } };
struct EStr { using T = String; static T mk(int v) { return String(std::string(size_t(v) * 9, 'x')); } static int un(T const& t) { return int(t.size()) / 9; } };
struct ETra { using T = Tracked; static T mk(int v) { return Tracked(v); } static int un(T const& t) { return t.get(); } };
template<class E> struct Impl { int v; operator typename E::T() const { converted.push_back(v); return E::mk(v); } friend bool operator<(Impl a, Impl b) { return a.v < b.v; } };
template<class E> struct Expl { int v; explicit operator typename E::T() const { converted.push_back(v); return E::mk(v); } friend bool operator<(Expl a, Expl b) { return a.v < b.v; } };
template<class E> int drive(int argc, char** argv) {
    using T = typename E::T; using I = Impl<E>; using X = Expl<E>;
    auto perform = [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) return Out();
        std::string n = o.name(); Ints q = o.ints(1);
        if (n == "compl") { Array<size_t> x(q.size()); for (size_t i = 0; i < q.size(); ++i) x[i] = size_t(q[i]);
            Array<size_t> y = complement(size_t(o.i(2)), x); Ints r; for (size_t z : y) r.push_back(int(z)); return Out("ok", arr({js(r), "[]"})); }
        std::vector<T> v; for (int x : q) v.push_back(E::mk(x));
        List<T> l(v.begin(), v.end()); Array<T> a(v.begin(), v.end()); Set<T> s(v.begin(), v.end()); LinkedList<T> k(v.begin(), v.end()); std::list<T> sl(v.begin(), v.end());
        List<I> li; Array<I> ai(q.size()); Array<X> ax(q.size()); std::vector<X> vx; LinkedList<I> ki; std::set<I> si; std::set<X> sx;
        for (size_t i = 0; i < q.size(); ++i) { li.push_back(I{q[i]}); ai[i] = I{q[i]}; ax[i] = X{q[i]}; vx.push_back(X{q[i]}); ki.push_back(I{q[i]}); si.insert(I{q[i]}); sx.insert(X{q[i]}); }
        converted.clear();
        auto res = [&](auto const& c) { Ints r; for (auto const& x : c) r.push_back(E::un(x)); return Out("ok", arr({js(r), js(converted)})); };
        auto copied = [](auto c) { return c; };
        if (n == "array1") { Array<T> r = make_array(v.at(0)); return res(r); }
        if (n == "list1") { List<T> r = make_list(v.at(0)); return res(r); }
        if (n == "arrayvec") { std::vector<T> const& c = v; Array<T> r = make_array(c); return res(r); }
        if (n == "arrayarray") { Array<T> r = make_array(a); return res(r); }
        if (n == "listvec") { std::vector<T> const& c = v; List<T> r = make_list(c); return res(r); }
        if (n == "listarray") { List<T> r = make_list(a); return res(r); }
        if (n == "arraycopy") { Array<T> r = copied(a); return res(r); }
        if (n == "linkedstd") { LinkedList<T> r(sl); return res(r); }
        if (n == "arrayconv") { Array<T> r = ai; return res(r); }
        if (n == "arrayexpl") { Array<T> r(ax); return res(r); }
        if (n == "listconv") { List<T> r = static_cast<std::vector<I> const&>(li); return res(r); }
        if (n == "listexpl") { List<T> r(vx); return res(r); }
        if (n == "linkedlist") { LinkedList<T> r(li); return res(r); }
        if (n == "linkedlinked") { LinkedList<T> r(ki); return res(r); }
        if (n == "setvec") { std::vector<T> const& c = v; Set<T> r = make_set(c); return res(r); }
        if (n == "setcopy") { Set<T> r(s); return res(r); }
        if (n == "setconv") { Set<T> r(static_cast<std::vector<I> const&>(li)); return res(r); }
        if (n == "listset") { List<T> r = make_list(s); return res(r); }
        if (n == "setlist") { List<T> r = static_cast<List<T>>(s); return res(r); }
        if (n == "setsetconv") { Set<T> r(si); return res(r); }
        if (n == "setsetexpl") { Set<T> r(sx); return res(r); }
        if (n == "unique") { return Out("ok", arr({js(Ints{unique_elements(v)}), "[]"})); }
        if (n == "dups") { Set<T> r = duplicate_elements(v); return res(r); }
        return Out("badop");
    };
    return run_scripts(argc, argv, perform, [] { return obj({{"bad", js(Tracked::bad)}}); });
}
int main(int argc, char** argv) {
    std::string e = argv[3];
    if (e == "int") return drive<EInt>(argc, argv);
    if (e == "str") return drive<EStr>(argc, argv);
    return drive<ETra>(argc, argv);
}
