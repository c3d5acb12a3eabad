// Drives the text output of containers, ranges, writable objects and writers on one stream whose state is observed.
#include <cstdlib>
#include <iostream>
#include <iomanip>
#include <memory>
#include "string.hpp"
#include "container.hpp"
#include "stlio.hpp"
#include "tuple.hpp"
#include "writable.hpp"
#include "handle.hpp"
#include "common.hpp"
using namespace Helper;

struct J { bool num = true; int n = 0; std::vector<J> k; };
static J parse(std::string const& t, size_t& p) {
    J j;
    if (t[p] == '[') { j.num = false; ++p; while (t[p] != ']') { j.k.push_back(parse(t, p)); if (t[p] == ',') ++p; } ++p; }
    else { size_t e; j.n = std::stoi(t.substr(p), &e); p += e; }
    return j;
}
struct W : WritableInterface {
    int v; W(int v_ = 0) : v(v_) { }
    ostream& _write(ostream& os) const override { return os << '<' << v << '>'; }
};
struct Obj { int v; };
struct ObjWriter : WriterInterface<Obj> {
    ostream& _write(ostream& os, Obj const& o) const override { return os << '<' << o.v << '>'; }
};
struct Coef { int i, c; int index() const { return i; } int coefficient() const { return c; } };

// value from its description, and back
template<class T> struct Mk;
template<class T> T mk(J const& j) { return Mk<T>::of(j); }
template<> struct Mk<int> { static int of(J const& j) { return j.n; } static std::string enc(int x) { return js(x); } };
template<> struct Mk<bool> { static bool of(J const& j) { return j.n != 0; } static std::string enc(bool x) { return js(x); } };
static const double reals[] = {0.5, -2.25, 3, 1e20, -0.0001, 1234567, 1.0 / 3, 100000, 0};
template<> struct Mk<double> { static double of(J const& j) { return reals[j.n - 1]; } static std::string enc(double x) { char b[40]; snprintf(b, sizeof b, "%a", x); return b; } };
template<> struct Mk<char> { static char of(J const& j) { return char(j.n); } static std::string enc(char x) { return js(int(x)); } };
template<> struct Mk<W> { static W of(J const& j) { return W(j.n); } static std::string enc(W const& x) { return js(x.v); } };
template<> struct Mk<String> { static String of(J const& j) { String s; for (auto& c : j.k) s += char(c.n); return s; } static std::string enc(String const& x) { return js(x); } };
template<class S> std::string encseq(S const& s) { std::string r = "["; for (auto const& x : s) r += Mk<std::decay_t<decltype(x)>>::enc(x) + ";"; return r + "]"; }
template<class T> struct Mk<Array<T>> { static Array<T> of(J const& j) { Array<T> a(j.k.size()); for (size_t i = 0; i != j.k.size(); ++i) a[i] = mk<T>(j.k[i]); return a; } static std::string enc(Array<T> const& x) { return encseq(x); } };
template<class T> struct Mk<SharedArray<T>> { static SharedArray<T> of(J const& j) { SharedArray<T> a(j.k.size()); for (size_t i = 0; i != j.k.size(); ++i) a[i] = mk<T>(j.k[i]); return a; } static std::string enc(SharedArray<T> const& x) { return encseq(x); } };
template<class T> struct Mk<List<T>> { static List<T> of(J const& j) { List<T> a; for (auto& x : j.k) a.append(mk<T>(x)); return a; } static std::string enc(List<T> const& x) { return encseq(x); } };
template<class T> struct Mk<LinkedList<T>> { static LinkedList<T> of(J const& j) { LinkedList<T> a; for (auto& x : j.k) a.append(mk<T>(x)); return a; } static std::string enc(LinkedList<T> const& x) { return encseq(x); } };
template<class T> struct Mk<Set<T>> { static Set<T> of(J const& j) { Set<T> a; for (auto& x : j.k) a.insert(mk<T>(x)); return a; } static std::string enc(Set<T> const& x) { return encseq(x); } };
template<class A, class B> struct Mk<std::pair<A, B>> { static std::pair<A, B> of(J const& j) { return {mk<A>(j.k[0]), mk<B>(j.k[1])}; }
    static std::string enc(std::pair<A, B> const& x) { return "(" + Mk<std::remove_const_t<A>>::enc(x.first) + ";" + Mk<B>::enc(x.second) + ")"; } };
template<class K, class V> struct Mk<Map<K, V>> { static Map<K, V> of(J const& j) { Map<K, V> m; for (auto& x : j.k) m.insert(std::make_pair(mk<K>(x.k[0]), mk<V>(x.k[1]))); return m; }
    static std::string enc(Map<K, V> const& x) { return encseq(x); } };
template<class... TS> struct Mk<std::tuple<TS...>> {
    template<size_t... I> static std::tuple<TS...> of_(J const& j, std::index_sequence<I...>) { (void)j; return std::tuple<TS...>(mk<TS>(j.k[I])...); }
    static std::tuple<TS...> of(J const& j) { return of_(j, std::index_sequence_for<TS...>()); }
    static std::string enc(std::tuple<TS...> const& x) { return std::apply([](auto const&... e) { std::string r = "("; ((r += Mk<std::decay_t<decltype(e)>>::enc(e) + ";"), ...); return r + ")"; }, x); }
};

static std::ostringstream os;
static std::string taken() { std::string s = os.str(); os.str(""); return s; }
enum How { PUT, TOSTRING, TOSTR };
template<class T> Out show(How how, J const& j) {
    T x = mk<T>(j); std::string before = Mk<T>::enc(x), text;
    T const& cx = x;
    if (how == PUT) { std::ostream& r = (os << cx); if (&r != &os) return Out("otherstream"); text = taken(); }
    else if (how == TOSTRING) text = Helper::to_string(cx);
    else text = Helper::to_str(cx);
    if (Mk<T>::enc(x) != before) return Out("changed");
    return Out("ok", codes(text));
}
using Show = Out (*)(How, J const&);
static Show find(std::string const& n) {
    using Str = String; using std::pair; using std::tuple;
    static const std::map<std::string, Show> m = {
        {"array", show<Array<int>>}, {"shared", show<SharedArray<int>>}, {"list", show<List<int>>}, {"linked", show<LinkedList<int>>},
        {"arraybool", show<Array<bool>>}, {"liststr", show<List<Str>>}, {"listwr", show<List<W>>}, {"set", show<Set<int>>}, {"setstr", show<Set<Str>>},
        {"map", show<Map<int, int>>}, {"mapstr", show<Map<Str, Str>>}, {"pair", show<Pair<int, Str>>},
        {"tuple0", show<Tuple<>>}, {"tuple1", show<Tuple<int>>}, {"tuple2", show<Tuple<int, int>>}, {"tuple3", show<Tuple<bool, Str, int>>}, {"tuple5", show<Tuple<int, int, Str, bool, W>>},
        {"arrayarray", show<Array<Array<int>>>}, {"sharedlist", show<SharedArray<List<int>>>}, {"listset", show<List<Set<int>>>},
        {"linkedlinked", show<LinkedList<LinkedList<Str>>>}, {"listpair", show<List<Pair<int, Str>>>}, {"listmap", show<List<Map<int, int>>>},
        {"setlist", show<Set<List<int>>>}, {"setpair", show<Set<Pair<int, int>>>}, {"maplist", show<Map<int, List<int>>>}, {"mapmap", show<Map<Str, Map<int, int>>>},
        {"mapset", show<Map<int, Set<Str>>>}, {"pairnest", show<Pair<List<int>, Set<Str>>>},
        {"tuplenest", show<Tuple<Map<int, Str>, Array<List<int>>, Pair<int, int>>>}, {"listtuple", show<List<Tuple<int, bool>>>}, {"cube", show<Array<List<LinkedList<int>>>>},
        {"bool", show<bool>}, {"real", show<double>}, {"char", show<char>}, {"listreal", show<List<double>>}, {"arraychar", show<Array<char>>}, {"linkedreal", show<LinkedList<double>>},
        {"mapreal", show<Map<int, double>>}, {"mapchar", show<Map<Str, char>>}, {"tuplereal", show<Tuple<double, char, bool>>},
        {"wr", show<W>}, {"string", show<Str>}, {"int", show<int>}};
    return m.at(n);
}
int main(int argc, char** argv) {
    auto fmt = [](int base, int pos, int alpha) {
        os << (base == 16 ? std::hex : std::dec) << (pos ? std::showpos : std::noshowpos) << (alpha ? std::boolalpha : std::noboolalpha); };
    os.precision(9); os.fill('*'); fmt(10, 0, 0);
    const std::ios::fmtflags used = std::ios::basefield | std::ios::showpos | std::ios::boolalpha;
    const std::ios::fmtflags rest = os.flags() & ~used;
    const char* D = "[],:{},:();=<> ||||||";
    auto perform = [&](Op const& o) -> Out {
        size_t p = 0;
        if (o.is("new") || o.is("end")) { fmt(10, 0, 0); os.clear(); os.str(""); return Out(); }
        if (o.is("fmt")) { Ints g = o.ints(1); fmt(g[0], g[1], g[2]); return Out(); }
        if (o.is("put")) return find(o.s(1))(PUT, parse(o.s(2), p));
        if (o.is("tostring")) return find(o.s(1))(TOSTRING, parse(o.s(2), p));
        if (o.is("tostr")) return find(o.s(1))(TOSTR, parse(o.s(2), p));
        if (o.is("writer")) { Obj ob{o.i(1)}; Writer<Obj> w{Handle<WriterInterface<Obj>>(std::make_shared<ObjWriter>())}; os << w(ob); ObjWriter direct; std::string a = taken(); os << direct(ob); std::string b = taken();
            if (a != b) return Out("differ"); return Out("ok", codes(a)); }
        if (o.is("write")) { W w(o.i(1)); WritableInterface const& i = w; i.write(os); std::string a = taken(); os << i; std::string b = taken(); if (a != b) return Out("differ"); return Out("ok", codes(a)); }
        int st = o.i(1); const char* d = D + 4 * (st - 1);
        J j = parse(o.s(2), p);
        if (o.is("seq") || o.is("aseq")) {
            std::list<int> l; for (auto& x : j.k) l.push_back(x.n);
            std::vector<int> v(l.begin(), l.end()); const int* b = v.data();
            if (o.is("seq")) { if (st == 1) write_sequence(os, l.begin(), l.end()); else write_sequence(os, l.begin(), l.end(), d[0], d[1], d[2]); }
            else { if (st == 1) write_sequence(os, b, b + v.size()); else write_sequence(os, b, b + v.size(), d[0], d[1], d[2]); }
        } else if (o.is("pseq") || o.is("pshare")) {
            std::map<int, std::shared_ptr<int>> one; std::vector<std::shared_ptr<int>> v;
            for (auto& x : j.k) { auto& p = one[x.n]; if (!p || o.is("pseq")) p = std::make_shared<int>(x.n); v.push_back(p); }
            if (st == 1) write_pointer_sequence(os, v.begin(), v.end()); else write_pointer_sequence(os, v.begin(), v.end(), d[0], d[1], d[2]);
        } else if (o.is("lseq")) {
            Array<List<int>> v = mk<Array<List<int>>>(j);
            if (st == 1) write_sequence(os, v.begin(), v.end()); else write_sequence(os, v.begin(), v.end(), d[0], d[1], d[2]);
        } else if (o.is("mseq")) {
            Map<int, int> m = mk<Map<int, int>>(j);
            if (st == 2) write_map_sequence(os, m.begin(), m.end()); else write_map_sequence(os, m.begin(), m.end(), d[0], d[1], d[2], d[3]);
        } else if (o.is("mpseq") || o.is("mpshare")) {
            std::map<int, std::shared_ptr<int>> one, m; for (auto& x : j.k) { auto& p = one[x.k[1].n]; if (!p || o.is("mpseq")) p = std::make_shared<int>(x.k[1].n); m[x.k[0].n] = p; }
            if (st == 2) write_map_pointer_sequence(os, m.begin(), m.end()); else write_map_pointer_sequence(os, m.begin(), m.end(), d[0], d[1], d[2], d[3]);
        } else if (o.is("cseq")) {
            std::vector<Coef> v; for (auto& x : j.k) v.push_back(Coef{x.k[0].n, x.k[1].n});
            if (st == 2) write_coefficient_map_sequence(os, v.begin(), v.end()); else write_coefficient_map_sequence(os, v.begin(), v.end(), d[0], d[1], d[2], d[3]);
        } else return Out("badop");
        return Out("ok", codes(taken()));
    };
    return run_scripts(argc, argv, perform, [&] {
        bool misc = (os.flags() & ~used) == rest && os.precision() == 9 && os.fill() == '*' && os.width() == 0 && os.good() && taken().empty();
        return obj({{"f", js(Ints{(os.flags() & std::ios::hex) ? 16 : 10, (os.flags() & std::ios::showpos) ? 1 : 0, (os.flags() & std::ios::boolalpha) ? 1 : 0})}, {"misc", js(misc)}}); });
}
