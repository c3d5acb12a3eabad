// Drives Helper::Array. Argument 3: the element type.
#include <iostream>
#include <list>
#include <memory>
#include <vector>
#include "string.hpp"
#include "array.hpp"
#include "common.hpp"
using namespace Helper;

struct EInt { using T = int; using From = short; static T mk(int v) { return v; } static int un(T const& t) { return t; } static From from(int v) { return From(v); } };
struct EStr { using T = String; using From = const char*;
    static inline const char* lit[] = {"", "one", "two and a much longer text that does not fit inside", "three", "four", "five", "six", "seven", "eight", "nine"};
    static T mk(int v) { return v == 0 ? String() : v < 10 ? String(lit[v]) : String("#" + std::to_string(v)); }
    static int un(T const& t) { for (int k = 0; k < 10; ++k) if (t == lit[k]) return k; return t.size() > 1 && t[0] == '#' ? std::atoi(t.c_str() + 1) : -999; }
    static From from(int v) { return lit[v]; } };
// every initialiser list needs a length known to the compiler
template<class T, size_t... I, class F> void list_of(std::vector<T> const& v, std::index_sequence<I...>, F const& f) { InitializerList<T> l = {v[I]...}; f(l); }
template<size_t N, class T, class F> bool with_list(std::vector<T> const& v, F const& f) {
    if constexpr (N == 0) { if (v.empty()) { f(InitializerList<T>()); return true; } return false; }
    else { if (v.size() == N) { list_of(v, std::make_index_sequence<N>(), f); return true; } return with_list<N - 1>(v, f); }
}
struct Prec { int add; };
struct TraPrec : Tracked { using Tracked::Tracked; TraPrec() { } TraPrec(int v) : Tracked(v) { } TraPrec(double d, Prec const& p) : Tracked(int(d) + 3 * p.add) { } };
struct ETra { using T = TraPrec; using From = int; static T mk(int v) { return T(v); } static int un(T const& t) { return t.get(); } static From from(int v) { return v; } };
// an element that can be moved from, which costs it its value, and whose moves can fail as its copies can
struct Mover : Tracked { using Tracked::Tracked; Mover() { } Mover(int v) : Tracked(v) { } Mover(Mover const&) = default; Mover& operator=(Mover const&) = default;
    Mover(Mover&& o) : Tracked(o) { o.val = -555; } Mover& operator=(Mover&& o) { Tracked::operator=(o); if (this != &o) o.val = -555; return *this; } };
struct EMov { using T = Mover; using From = int; static T mk(int v) { return T(v); } static int un(T const& t) { return t.get(); } static From from(int v) { return v; } };
// an element of plain bytes, not all of which matter to its equality
struct Mark { int val = 0; int serial = next(); static int next() { static int n = 0; return ++n; } Mark() { } Mark(int v) : val(v) { }
    bool operator==(Mark const& o) const { return val == o.val; } bool operator!=(Mark const& o) const { return val != o.val; } };
static_assert(std::is_trivially_copyable_v<Mark>);
struct EMar { using T = Mark; using From = int; static T mk(int v) { return T(v); } static int un(T const& t) { return t.val; } static From from(int v) { return v; } };
template<class E> struct Expl { int v; explicit operator typename E::T() const { return E::mk(v); } };

template<class E> int drive(int argc, char** argv) {
    using T = typename E::T; using A = Array<T>;
    constexpr int NS = 3; int ns = std::atoi(argv[4]);
    bool account = std::string(argv[5]) == "account";
    A* s[NS + 1] = {};
    auto clear = [&] { for (auto& p : s) { delete p; p = nullptr; } };
    auto vec = [&](Ints const& v) { std::vector<T> r; r.reserve(v.size()); for (int x : v) r.push_back(E::mk(x)); return r; };
    std::function<Out(Op const&)> perform = [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { Uncounted u; clear(); return Out(); }
        bool armed = o.is("fault");
        Op p = o; int k = 0;
        if (armed) { k = o.i(1); p.f.erase(p.f.begin(), p.f.begin() + 2); }
        size_t i = size_t(p.i(1)); A*& a = s[i];
        auto skip = Out("skip");
        std::string n = p.name();
        // arguments are made before the fault is armed: only the library's own copies fail
        bool two = n == "mkcopy" || n == "mkmove" || n == "mksub" || n == "cp" || n == "mv" || n == "swap" || n == "eq";
        A* b = two ? s[size_t(p.i(2))] : nullptr;
        bool mk = n.substr(0, 2) == "mk";
        if (mk ? a != nullptr : a == nullptr) return skip;
        if (two && !b) return skip;
        bool seq = n == "mklist" || n == "mkrange" || n == "mkfwd" || n == "mkconv" || n == "mkexpl" || n == "mkraw" || n == "mkpr" || n == "mkprarr" || n == "asgl" || n == "fillseq" || n == "asg";
        Ints q = seq ? p.ints(2) : Ints();
        std::vector<T> v = vec(q);
        std::vector<double> dv(q.begin(), q.end()); if (n == "mkpr" || n == "mkprarr") for (double& y : dv) y -= 3 * p.i(3);   // what the parameter adds
        Array<double> dbl(dv.begin(), dv.end());
        size_t m = (!seq && !two && p.f.size() > 2) ? size_t(p.i(2)) : 0;
        // more elements than there can be: their bytes come, modulo the size of the address space, to nothing or to a few
        // elements; or are too many either way
        constexpr size_t SZ = sizeof(T), TOP = ~size_t(0), WRAP = TOP / SZ + 1;
        constexpr size_t MANY[] = {WRAP, WRAP + 2, TOP, TOP / 2 + 1, TOP / 2 / SZ};
        T x = E::mk((n == "mknx" || n == "rszx") ? p.i(3) : n == "fill" ? p.i(2) : n == "wr" ? p.i(4) : 0);
        int mul = n == "mkgen" ? p.i(3) : 0;
        std::vector<T> gen; if (n == "mkgen") for (size_t j = 1; j <= m; ++j) gen.push_back(E::mk(int(j) * mul));
        std::list<T> fw(v.begin(), v.end());
        Array<typename E::From> conv(q.size()); for (size_t j = 0; j < q.size(); ++j) conv[j] = E::from(q[j] % 10);
        Array<Expl<E>> expl(q.size()); for (size_t j = 0; j < q.size(); ++j) expl[j] = Expl<E>{q[j]};
        if (n == "fillseq" && q.size() != a->size()) return skip;
        if (n == "mksub" && (p.i(3) > p.i(4) || size_t(p.i(4)) > b->size())) return skip;
        if (n == "rszs" && size_t(p.i(3)) >= a->size()) return skip;
        if (n == "fills" && m >= a->size()) return skip;
        if (n == "wr") { int h = p.i(3); if (h == 2 || h == 3 ? a->size() == 0 : h != 1 && m >= a->size()) return skip; }
        auto go = [&]() -> Out {
            if (n == "mk0") a = new A();
            else if (n == "mkn") a = new A(m);
            else if (n == "mknx") a = new A(m, x);
            else if (n == "mkgen") { auto g = [&gen](size_t j) -> T const& { return gen.at(j); }; a = new A(m, g); }
            else if (n == "mklist") { if (!with_list<17>(v, [&](InitializerList<T> const& l) { a = new A(l); })) a = new A(v.begin(), v.end()); }
            else if (n == "mkpr" || n == "mkprarr") {
                if constexpr (std::is_same_v<E, ETra>) {
                    Prec pr{p.i(3)};
                    if (n == "mkprarr") a = new A(dbl, pr);
                    else if (!with_list<17>(dv, [&](InitializerList<double> const& l) { a = new A(l, pr); })) a = new A(dbl, pr);
                } else a = new A(v.begin(), v.end());   // these element types take no parameter
            }
            else if (n == "mkrange") a = new A(v.begin(), v.end());
            else if (n == "mkfwd") a = new A(fw.begin(), fw.end());
            else if (n == "mkconv") { auto f = [](A y) { return new A(std::move(y)); }; a = f(conv); }
            else if (n == "mkexpl") a = new A(expl);
            else if (n == "mkraw") { if (armed) { a = new A(v.begin(), v.end()); } else { a = new A(v.size(), Uninitialised()); for (size_t j = 0; j < v.size(); ++j) new (a->begin() + j) T(v[j]); } }
            else if (n == "mkcopy") a = new A(*b);
            else if (n == "mkmove") a = new A(std::move(*b));
            else if (n == "mksub") a = new A(b->begin() + p.i(3), b->begin() + p.i(4));
            else if (n == "del") { delete a; a = nullptr; }
            else if (n == "cp") { A const& c = *b; A& r = (*a = c); if (&r != a) return Out("badref"); }
            else if (n == "mv") { A& r = (*a = std::move(*b)); if (&r != a) return Out("badref"); }
            else if (n == "swap") a->swap(*b);
            else if (n == "asgl") { A t(v.begin(), v.end()); A const& c = t; *a = c; }
            else if (n == "rsz") a->resize(m);
            else if (n == "rszx") a->resize(m, x);
            else if (n == "rszs") a->resize(m, (*a)[size_t(p.i(3))]);
            else if (n == "rea") a->reallocate(m);
            else if (n == "fill") a->fill(x);
            else if (n == "fills") a->fill((*a)[m]);
            else if (n == "fillseq") a->fill(v.begin());
            else if (n == "asg") a->assign(fw.begin(), fw.end());
            else if (n == "wr") switch (p.i(3)) {
                case 0: (*a)[m] = x; break; case 1: a->at(m) = x; break; case 2: a->front() = x; break;
                case 3: a->back() = x; break; default: *(a->begin() + m) = x; }
            else if (n == "at") { int r = E::un(a->at(m)); A const& c = *a; return E::un(c.at(m)) == r ? Out("ok", js(Ints{r})) : Out("differ"); }
            else if (n == "athi") {
                size_t k = p.i(3) == 0 ? (size_t(1) << 32) + m : ~size_t(0) - m; int t1 = 0, t2 = 0; A const& c = *a;
                try { Tracked::bad += &a->at(k) == nullptr; } catch (std::out_of_range const&) { t1 = 1; }
                try { Tracked::bad += &c.at(k) == nullptr; } catch (std::out_of_range const&) { t2 = 1; }
                return Out("ok", js(Ints{t1, t2}));
            }
            else if (n == "mkhuge") switch (size_t k = MANY[m]; p.i(3)) {
                case 0: a = new A(k); break; case 1: a = new A(k, x); break; case 2: { T const& y = x; auto g = [&y](size_t) -> T const& { return y; }; a = new A(k, g); break; }
                default: a = new A(k, Uninitialised()); }
            else if (n == "rszhuge") switch (size_t k = MANY[m]; p.i(3)) { case 0: a->resize(k); break; case 1: a->resize(k, x); break; default: a->reallocate(k); }
            else if (n == "eq") { bool e = *a == *b, d = *a != *b; return Out("ok", js(Ints{e, d})); }
            else return Out("badop");
            return Out();
        };
        Counted c;
        Tracked::armed = armed ? k : 0;
        try { Out r = go(); bool fired = armed && Tracked::armed == 0; Tracked::armed = 0; return fired ? Out("swallowed") : r; }
        catch (Fault const&) { Tracked::armed = 0; return Out("fault"); }
        catch (std::bad_alloc const&) { Tracked::armed = 0; return Out("refused"); }
        catch (std::length_error const&) { Tracked::armed = 0; return Out("refused"); }
        catch (std::out_of_range const&) { Tracked::armed = 0; return Out("throw"); }
    };
    auto observe = [&]() -> std::string {
        std::vector<std::string> r; bool any = false;
        for (int i = 1; i <= ns; ++i) {
            Ints e, it, fb; A* a = s[i];
            if (a) {
                any = true; A const& c = *a;
                if (c.size() > 100000) throw 1;
                for (size_t j = 0; j < c.size(); ++j) e.push_back(E::un((*a)[j]) == E::un(c[j]) ? E::un(c[j]) : -888);
                for (auto p = c.begin(); p != c.end(); ++p) it.push_back(E::un(*p));
                size_t k = 0; for (auto p = a->begin(); p != a->end(); ++p, ++k) if (E::un(*p) != it.at(k)) it[k] = -888;
                if (c.size()) { fb = {E::un(c.front()), E::un(c.back())}; if (&a->front() != &c.front() || &a->back() != &c.back()) fb.push_back(-888); }
            }
            r.push_back(obj({{"p", js(a ? 1 : 0)}, {"n", js(a ? int(a->size()) : 0)}, {"e", js(e)}, {"it", js(it)},
                             {"em", js(a && a->max_size() < a->size() ? 7 : a && a->empty() ? 1 : 0)}, {"fb", js(fb)}}));
        }
        return obj({{"a", arr(r)}, {"lost", js(std::vector<long>{any || !account ? 0 : Tracked::live, any || !account ? 0 : memacct::counted, Tracked::bad})}});
    };
    return run_scripts(argc, argv, perform, observe);
}
int main(int argc, char** argv) {
    std::string k = argv[3];
    if (k == "int") return drive<EInt>(argc, argv);
    if (k == "str") return drive<EStr>(argc, argv);
    if (k == "mover") return drive<EMov>(argc, argv);
    if (k == "mark") return drive<EMar>(argc, argv);
    return drive<ETra>(argc, argv);
}
