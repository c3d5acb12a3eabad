// Drives make_lpair, make_ltuple and get_first .. get_fifth. Argument 3: type of the variables, 4: how many, 5: slots.
#include <algorithm>
#include <iostream>
#include <memory>
#include <optional>
#include <variant>
#include <vector>
#include "string.hpp"
#include "tuple.hpp"
#include "common.hpp"
using namespace Helper;
// the type of a variable, and another type that converts to it
struct EInt { using T = int; using C = short; static T mk(int v) { return v; } static C cv(int v) { return C(v); } static int un(T const& t) { return t; } };
struct EStr {
    using T = std::string; struct C { int v; operator std::string() const { return mk(v); } };
    static T mk(int v) { return "a value long enough to be stored elsewhere: " + std::to_string(v); } static C cv(int v) { return C{v}; }
    static int un(T const& t) { size_t p = t.rfind(' '); return p == std::string::npos ? -1 : std::stoi(t.substr(p + 1)); }
};
struct ETra { using T = Tracked; using C = int; static T mk(int v) { return Tracked(v); } static C cv(int v) { return v; } static int un(T const& t) { return t.get(); } };

template<size_t I, class P> decltype(auto) acc(P&& t) {
    if constexpr (I == 0) return get_first(std::forward<P>(t));
    else if constexpr (I == 1) return get_second(std::forward<P>(t));
    else if constexpr (I == 2) return get_third(std::forward<P>(t));
    else if constexpr (I == 3) return get_fourth(std::forward<P>(t));
    else return get_fifth(std::forward<P>(t));
}
template<class T, size_t> using Rep = T;
template<class T, class Q> struct TupOf;
template<class T, size_t... I> struct TupOf<T, std::index_sequence<I...>> { using Type = Tuple<Rep<T, I>...>; };
template<class T, size_t N> using Tup = typename TupOf<T, std::make_index_sequence<N>>::Type;
template<class P> constexpr bool is_pair = false;
template<class A, class B> constexpr bool is_pair<std::pair<A, B>> = true;
// call f with the position (0..n-1) as a constant
template<size_t N, class F> void at(int p, F f) { [&]<size_t... I>(std::index_sequence<I...>) { (void)((int(I) == p && (f(std::integral_constant<size_t, I>()), true)) || ...); }(std::make_index_sequence<N>()); }
template<class F> void sized(size_t n, F f) { at<7>(int(n) - 1, [&](auto c) { f(std::integral_constant<size_t, decltype(c)::value + 1>()); }); }

template<class E> int drive(int argc, char** argv) {
    using T = typename E::T;
    size_t nv = size_t(std::atoi(argv[4])), ns = size_t(std::atoi(argv[5]));
    std::vector<std::unique_ptr<T>> x; for (size_t i = 0; i <= nv; ++i) x.push_back(std::make_unique<T>(E::mk(0)));
    auto X = [&](int i) -> T& { return *x.at(size_t(i)); };
    using Refs = std::variant<std::monostate, Pair<T&, T&>, Tup<T&, 1>, Tup<T&, 2>, Tup<T&, 3>, Tup<T&, 4>, Tup<T&, 5>, Tup<T&, 6>, Tup<T&, 7>>;
    using Values = std::variant<std::monostate, Pair<T, T>, Tup<T, 1>, Tup<T, 2>, Tup<T, 3>, Tup<T, 4>, Tup<T, 5>, Tup<T, 6>, Tup<T, 7>>;
    std::vector<std::unique_ptr<Refs>> r; std::vector<std::unique_ptr<Values>> t;
    for (size_t i = 0; i <= ns; ++i) { r.push_back(std::make_unique<Refs>()); t.push_back(std::make_unique<Values>()); }
    auto R = [&](int i) -> Refs& { return *r.at(size_t(i)); };
    auto V = [&](int i) -> Values& { return *t.at(size_t(i)); };
    // f(reference tuple) for the named kind and variables
    auto with_refs = [&](std::string const& kind, Ints const& n, auto f) {
        if (kind == "pair") { f(make_lpair(X(n.at(0)), X(n.at(1)))); return; }
        sized(n.size(), [&](auto N) { [&]<size_t... I>(std::index_sequence<I...>) { f(make_ltuple(X(n.at(I))...)); }(std::make_index_sequence<decltype(N)::value>()); });
    };
    auto with_vals = [&](std::string const& kind, Ints const& a, auto mk, auto f) {
        if (kind == "pair") { f(make_pair(mk(a.at(0)), mk(a.at(1)))); return; }
        sized(a.size(), [&](auto N) { [&]<size_t... I>(std::index_sequence<I...>) { f(make_tuple(mk(a.at(I))...)); }(std::make_index_sequence<decltype(N)::value>()); });
    };
    // f(reference tuple, value tuple) of one size
    auto with_both = [&](std::string const& kind, Ints const& n, Ints const& a, auto mk, auto f) {
        if (kind == "pair") { f(make_lpair(X(n.at(0)), X(n.at(1))), make_pair(mk(a.at(0)), mk(a.at(1)))); return; }
        if (n.size() == a.size()) sized(n.size(), [&](auto N) { [&]<size_t... I>(std::index_sequence<I...>) { f(make_ltuple(X(n.at(I))...), make_tuple(mk(a.at(I))...)); }(std::make_index_sequence<decltype(N)::value>()); });
    };
    auto count = [](auto& var) -> int { return std::visit([](auto& p) -> int { if constexpr (std::is_same_v<std::decay_t<decltype(p)>, std::monostate>) return 0; else return int(std::tuple_size<std::decay_t<decltype(p)>>::value); }, var); };
    auto perform = [&](Op const& o) -> Out {
        std::string n = o.name();
        if (n == "new" || n == "end") { for (auto& p : x) *p = E::mk(0); for (auto& p : r) p = std::make_unique<Refs>(); for (auto& p : t) p = std::make_unique<Values>(); return Out(); }
        if (n == "set") { X(o.i(1)) = E::mk(o.i(2)); return Out(); }
        if (n == "drop") { r.at(size_t(o.i(1))) = std::make_unique<Refs>(); return Out(); }
        bool done = false;
        if (n == "hold") {
            auto fresh = std::make_unique<Refs>();
            with_refs(o.s(2), o.ints(3), [&](auto&& p) { fresh->template emplace<std::decay_t<decltype(p)>>(p); done = true; });
            r.at(size_t(o.i(1))) = std::move(fresh); return Out(done ? "ok" : "badop");
        }
        if (n == "asg") {
            std::string how = o.s(1); bool self = true;
            auto go = [&](auto mk) {
                with_both(o.s(2), o.ints(3), o.ints(4), mk, [&](auto&& p, auto&& q) {
                    done = true; auto const c = q;
                    if (how == "named") { auto& b = (p = c); self = &b == &p; }
                    else { auto& b = (p = std::move(q)); self = &b == &p; }
                });
            };
            if (how == "conv") go([](int a) { return E::cv(a); }); else go([](int a) { return E::mk(a); });
            return Out(!done ? "badop" : self ? "ok" : "badref");
        }
        if (n == "perm") {
            with_both(o.s(1), o.ints(2), o.ints(3), [&](int i) -> T& { return X(i); }, [&](auto&& p, auto&& q) { done = true; p = q; });
            return Out(done ? "ok" : "badop");
        }
        if (n == "asgs") {
            Ints a = o.ints(2); if (R(o.i(1)).index() == 0 || count(R(o.i(1))) != int(a.size())) return Out("skip");
            std::visit([&](auto& p) { using P = std::decay_t<decltype(p)>;
                auto mk = [](int k) { return E::mk(k); };
                if constexpr (is_pair<P>) { p = make_pair(mk(a.at(0)), mk(a.at(1))); done = true; }
                else if constexpr (!std::is_same_v<P, std::monostate>) [&]<size_t... I>(std::index_sequence<I...>) { p = make_tuple(mk(a.at(I))...); done = true; }(std::make_index_sequence<std::tuple_size<P>::value>()); }, R(o.i(1)));
            return Out(done ? "ok" : "badop");
        }
        if (n == "asgref" || n == "asgval") {
            Ints xs = o.ints(2);
            auto from = [&](auto const& p) { using P = std::decay_t<decltype(p)>;
                if constexpr (!std::is_same_v<P, std::monostate>) {
                    if (n == "asgref") {  // only where the two name different variables
                        bool over = false; for (int i : xs) at<std::tuple_size<P>::value>(0, [&](auto) { [&]<size_t... I>(std::index_sequence<I...>) { ((over = over || &std::get<I>(p) == &X(i)), ...); }(std::make_index_sequence<std::tuple_size<P>::value>()); });
                        if (over) return;
                    }
                    with_refs(o.s(1), xs, [&](auto&& q) { using Q = std::decay_t<decltype(q)>;
                        if constexpr (std::tuple_size<P>::value == std::tuple_size<Q>::value) if constexpr (std::is_assignable<Q&, P const&>::value) { q = p; done = true; } });
                } };
            if (n == "asgref") std::visit(from, R(o.i(3))); else std::visit(from, V(o.i(3)));
            return Out(done ? "ok" : "skip");
        }
        if (n == "rget" || n == "rput") {
            Out res("skip"); int pos = o.i(3) - 1;
            std::visit([&](auto& p) { using P = std::decay_t<decltype(p)>;
                if constexpr (!std::is_same_v<P, std::monostate>) at<(std::min)(std::tuple_size<P>::value, size_t(5))>(pos, [&](auto c) { constexpr size_t I = decltype(c)::value;
                    T* e; P const& cp = p; std::string f = o.s(1); P copy(p);
                    if (f == "lval") e = &acc<I>(p); else if (f == "const") e = &acc<I>(cp); else { T& y = acc<I>(std::move(copy)); e = &y; }
                    if (n == "rput") { if (f == "lval") acc<I>(p) = E::mk(o.i(4)); else if (f == "const") acc<I>(cp) = E::mk(o.i(4)); else acc<I>(P(p)) = E::mk(o.i(4)); res = Out(); return; }
                    int which = -1; for (size_t i = 1; i <= nv; ++i) if (&X(int(i)) == e) which = int(i);
                    res = Out("ok", js(Ints{E::un(*e), which})); }); }, R(o.i(2)));
            return res;
        }
        if (n == "mk") {
            auto fresh = std::make_unique<Values>();
            with_vals(o.s(2), o.ints(3), [](int k) { return E::mk(k); }, [&](auto&& p) { fresh->template emplace<std::decay_t<decltype(p)>>(std::move(p)); done = true; });
            t.at(size_t(o.i(1))) = std::move(fresh); return Out(done ? "ok" : "badop");
        }
        if (n == "mkfrom") {
            auto fresh = std::make_unique<Values>();
            std::visit([&](auto& p) { using P = std::decay_t<decltype(p)>;
                if constexpr (is_pair<P>) { fresh->template emplace<Pair<T, T>>(p); done = true; }
                else if constexpr (!std::is_same_v<P, std::monostate>) { fresh->template emplace<Tup<T, std::tuple_size<P>::value>>(p); done = true; } }, R(o.i(2)));
            if (!done) return Out("skip");
            t.at(size_t(o.i(1))) = std::move(fresh); return Out();
        }
        if (n == "vget" || n == "vput" || n == "vtake") {
            Out res("skip"); bool g = n == "vget"; int pos = o.i(g ? 3 : 2) - 1;
            std::visit([&](auto& p) { using P = std::decay_t<decltype(p)>;
                if constexpr (!std::is_same_v<P, std::monostate>) at<(std::min)(std::tuple_size<P>::value, size_t(5))>(pos, [&](auto c) { constexpr size_t I = decltype(c)::value;
                    P const& cp = p;
                    if (g) {
                        T const* e; std::string f = o.s(1);
                        if (f == "lval") e = &acc<I>(p); else if (f == "const") e = &acc<I>(cp); else { T&& y = acc<I>(std::move(p)); e = &y; }
                        int which = -1; [&]<size_t... K>(std::index_sequence<K...>) { ((which = e == &std::get<K>(p) ? int(K) + 1 : which), ...); }(std::make_index_sequence<std::tuple_size<P>::value>());
                        res = Out("ok", js(Ints{E::un(*e), which}));
                    }
                    else if (n == "vput") { acc<I>(p) = E::mk(o.i(3)); res = Out(); }
                    else { T y = acc<I>(std::move(p)); std::get<I>(p) = E::mk(0); res = Out("ok", js(Ints{E::un(y), int(I) + 1})); }
                }); }, V(o.i(g ? 2 : 1)));
            return res;
        }
        if (n == "types") {
            T a = E::mk(0), b = E::mk(0);
            using P = decltype(make_lpair(a, b)); using Q = decltype(make_ltuple(a, b, a)); using W = Tup<T, 5>;
            Ints f;
            auto add = [&](bool q) { f.push_back(q ? 1 : 0); };
            add(std::is_same<P, Pair<T&, T&>>::value && std::is_same<Q, Tuple<T&, T&, T&>>::value && std::is_same<decltype(make_lpair(a, const_cast<T const&>(b))), Pair<T&, T const&>>::value);
            add(std::is_same<decltype(make_ltuple(const_cast<T const&>(a))), Tuple<T const&>>::value);
            add([]<size_t... I>(std::index_sequence<I...>) { return (std::is_same<decltype(acc<I>(std::declval<W&>())), T&>::value && ...); }(std::make_index_sequence<5>()));
            add([]<size_t... I>(std::index_sequence<I...>) { return (std::is_same<decltype(acc<I>(std::declval<W const&>())), T const&>::value && ...); }(std::make_index_sequence<5>()));
            add([]<size_t... I>(std::index_sequence<I...>) { return (std::is_same<decltype(acc<I>(std::declval<W>())), T&&>::value && ...); }(std::make_index_sequence<5>()));
            add(std::is_same<decltype(acc<1>(std::declval<P>())), T&>::value && std::is_same<decltype(acc<2>(std::declval<Q const&>())), T&>::value);
            return Out("ok", js(f));
        }
        return Out("badop");
    };
    auto observe = [&]() -> std::string {
        Ints v; for (size_t i = 1; i <= nv; ++i) v.push_back(E::un(X(int(i))));
        std::vector<std::string> rr, tt;
        auto list = [&](auto& p) -> std::string { using P = std::decay_t<decltype(p)>; Ints e;
            if constexpr (!std::is_same_v<P, std::monostate>) std::apply([&](auto&... c) { (e.push_back(E::un(c)), ...); }, p);
            return js(e); };
        for (size_t i = 1; i <= ns; ++i) { rr.push_back(std::visit(list, R(int(i)))); tt.push_back(std::visit(list, V(int(i)))); }
        return obj({{"v", js(v)}, {"r", arr(rr)}, {"t", arr(tt)}});
    };
    return run_scripts(argc, argv, perform, observe);
}
// one program for each type of variable: -DKIND=int, str or tracked
using Kint = EInt; using Kstr = EStr; using Ktracked = ETra;
#define PASTE2(A, B) A##B
#define PASTE(A, B) PASTE2(A, B)
int main(int argc, char** argv) { return drive<PASTE(K, KIND)>(argc, argv); }
