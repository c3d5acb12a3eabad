// Drives IteratorFacade (random access and forward) and PairIterator over arrays of cells.
#include <cstdlib>
#include <iostream>
#include <iterator>
#include "iterator.hpp"
#include "common.hpp"
using namespace Helper;
struct Cell { int x; };
// a random access iterator from its basic operations only
template<class C> class RA : public IteratorFacade<RA<C>, C, RandomAccessTraversalTag, C&> {
    friend class Helper::IteratorCoreAccess; template<class> friend class RA;
    C* base = nullptr; std::ptrdiff_t pos = 0;
    bool equal(RA const& o) const { return pos == o.pos; }
    std::ptrdiff_t distance_to(RA const& o) const { return o.pos - pos; }
    void advance(std::ptrdiff_t n) { pos += n; }
    C& dereference() const { return base[pos]; }
  public:
    RA() { }
    RA(RA const&) = default;
    RA& operator=(RA const&) = default;
    RA(C* b, std::ptrdiff_t p) : base(b), pos(p) { }
    RA(RA<std::remove_const_t<C>> const& o) requires std::is_const_v<C> : base(o.base), pos(o.pos) { }
    long at() const { return pos; }
};
template<class C> bool operator==(RA<C> const& l, RA<const C> const& r) requires (!std::is_const_v<C>) { return l.at() == r.at(); }
template<class C> std::ostream& operator<<(std::ostream& os, RA<C> const& i) { return os << i.at(); }
struct Fwd : IteratorFacade<Fwd, Cell, ForwardTraversalTag, Cell&> {
    Cell* base = nullptr; long pos = 0;
    Fwd() { }
    Fwd(Cell* b, long p) : base(b), pos(p) { }
    bool equal(Fwd const& o) const { return pos == o.pos; }
    void increment() { ++pos; }
    Cell& dereference() const { return base[pos]; }
    long at() const { return pos; }
};
// a random access iterator over the integers: the element at a position is that position
struct Far : IteratorFacade<Far, long const, RandomAccessTraversalTag, long> {
    long pos = 0;
    Far(long p = 0) : pos(p) { }
    bool equal(Far const& o) const { return pos == o.pos; }
    std::ptrdiff_t distance_to(Far const& o) const { return o.pos - pos; }
    void advance(std::ptrdiff_t n) { pos += n; }
    long dereference() const { return pos; }
};
static std::vector<Cell> a, b;
static std::string cells(std::vector<Cell> const& c) { Ints v; for (auto& x : c) v.push_back(x.x); return js(v); }
static void fresh(int N) { a.resize(N); b.resize(N); for (int i = 1; i <= N; ++i) { a[i - 1].x = i % 2 + 1; b[i - 1].x = (i + 1) % 2 + 1; } }
static Out one(int x) { return Out("ok", js(Ints{x})); }
template<class It> int run(int argc, char** argv, int S, int N) {
    constexpr bool ra = std::is_same_v<It, RA<Cell>>;
    std::vector<It> it(S + 1);
    auto reset = [&] { fresh(N); for (auto& x : it) x = It(a.data(), 0); };
    reset();
    auto in = [&](long n) { return n >= 0 && n <= N; };
    auto perform = [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { reset(); return Out(); }
        It& s = it[o.i(1)]; It& t = it[o.i(2)]; It const& cs = s; It const& ct = t; int n = o.i(3);
        if (o.is("set")) { if (!in(n)) return Out("skip"); s = It(a.data(), n); return Out(); }
        if (o.is("cp")) { It c(ct); s = c; return Out(); }
        if (o.is("inc")) { if (!in(s.at() + 1)) return Out("skip"); It& r = ++s; return one(&r == &s); }
        if (o.is("deref")) { if (s.at() >= N) return Out("skip"); return one((*cs).x); }
        if (o.is("arrow")) { if (s.at() >= N) return Out("skip"); return one(cs->x); }
        if (o.is("write")) { if (s.at() >= N) return Out("skip"); (*cs).x = n; return Out(); }
        if (o.is("walk")) { if (s.at() > t.at()) return Out("skip"); Ints v; for (It i = s; i != t; ++i) v.push_back(i->x); return Out("ok", js(v)); }
        if constexpr (ra) {
            if (o.is("plus")) { if (!in(t.at() + n)) return Out("skip"); s = ct + n; return Out(); }
            if (o.is("minus")) { if (!in(t.at() - n)) return Out("skip"); s = ct - n; return Out(); }
            if (o.is("pluseq")) { if (!in(s.at() + n)) return Out("skip"); It& r = (s += n); return one(&r == &s); }
            if (o.is("minuseq")) { if (!in(s.at() - n)) return Out("skip"); It& r = (s -= n); return one(&r == &s); }
            if (o.is("next")) { if (!in(s.at() + n)) return Out("skip"); It const was = s; It r = std::next(s, n); bool same = s == was; std::advance(s, n); return one(same && r == s && std::distance(was, s) == n); }
            if (o.is("dec")) { if (!in(s.at() - 1)) return Out("skip"); It& r = --s; return one(&r == &s); }
            if (o.is("cmp")) return Out("ok", js(std::vector<long>{cs == ct, cs != ct, cs < ct, cs <= ct, cs > ct, cs >= ct, cs - ct, ct - cs}));
        } else {
            if (o.is("postinc")) { if (!in(s.at() + 1)) return Out("skip"); t = s++; return Out(); }
            if (o.is("readinc")) { if (s.at() >= N) return Out("skip"); return one((*s++).x); }
            if (o.is("cmp")) return Out("ok", js(Ints{cs == ct, cs != ct}));
        }
        return Out("badop");
    };
    return run_scripts(argc, argv, perform, [&] { std::vector<long> p; for (int s = 1; s <= S; ++s) p.push_back(it[s].at()); return obj({{"p", js(p)}, {"a", cells(a)}, {"b", cells(b)}}); });
}
static int run_pair(int argc, char** argv, int S, int N) {
    using I = RA<Cell>; using K = RA<const Cell>; using P = PairIterator<I, I>; using PK = PairIterator<K, K>;
    std::vector<P> it(S + 1, P(I(), I()));
    auto reset = [&] { fresh(N); for (auto& x : it) x = P(I(a.data(), 0), I(b.data(), 0)); };
    reset();
    auto in = [&](long n) { return n >= 0 && n <= N; };
    auto perform = [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { reset(); return Out(); }
        P& s = it[o.i(1)]; P& t = it[o.i(2)]; P const& cs = s; P const& ct = t; int n = o.i(3), m = o.i(4);
        if (o.is("set")) { s = P(I(a.data(), n), I(b.data(), m)); return Out(); }
        if (o.is("cp")) { P c(ct); s = c; return Out(); }
        if (o.is("advance")) { if (!in(s._iter1.at() + n) || !in(s._iter2.at() + n)) return Out("skip"); s.advance(n); return Out(); }
        if (o.is("equal")) return one(cs.equal(ct));
        if (o.is("equalconst")) { PK k(ct); return one(cs.equal(k)); }
        if (o.is("conv")) { PK k(cs); return Out("ok", js(std::vector<long>{k._iter1.at(), k._iter2.at()})); }
        if (o.is("print")) { std::ostringstream os; os << cs; long x = -1, y = -1; char e = 0, f = 0; if (sscanf(os.str().c_str(), "{%ld,%ld%c%c", &x, &y, &e, &f) != 3 || e != '}') return Out("text"); return Out("ok", js(std::vector<long>{x, y})); }
        if (s._iter1.at() >= N || s._iter2.at() >= N) return Out("skip");
        if (o.is("deref")) { auto r = s.dereference(); return Out("ok", js(Ints{r.first.x, r.second.x})); }
        if (o.is("write")) { auto r = s.dereference(); r.first.x = n; r.second.x = m; return Out(); }
        return Out("badop");
    };
    return run_scripts(argc, argv, perform, [&] { std::vector<std::vector<long>> p; for (int s = 1; s <= S; ++s) p.push_back({it[s]._iter1.at(), it[s]._iter2.at()}); return obj({{"p", js(p)}, {"a", cells(a)}, {"b", cells(b)}}); });
}
static int run_far(int argc, char** argv, int S, int N) {
    static_assert(sizeof(long) == 8);
    std::vector<Far> it(S + 1);
    auto num = [](Op const& o, int f) { unsigned long r = 0; for (int x : o.ints(f)) r = (r << 16) | (unsigned long)(x); return long(r); };
    auto word = [](long x) { return Ints{int((unsigned long)(x) >> 48), int(x >> 32 & 0xffff), int(x >> 16 & 0xffff), int(x & 0xffff)}; };
    auto words = [&](std::vector<long> v) { std::vector<Ints> r; for (long x : v) r.push_back(word(x)); return Out("ok", js(r)); };
    auto in = [](long x) { return x >= 0 && x < (1L << 62); };
    auto perform = [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { for (auto& x : it) x = Far(); return Out(); }
        Far& s = it[o.i(1)]; Far& t = it[o.i(2)]; Far const& cs = s; Far const& ct = t; long n = num(o, 3);
        if (o.is("set")) { s = Far(n); return Out(); }
        if (o.is("cp")) { Far c(ct); s = c; return Out(); }
        if (o.is("plus")) { if (!in(t.pos + n)) return Out("skip"); s = ct + n; return Out(); }
        if (o.is("minus")) { if (!in(t.pos - n)) return Out("skip"); s = ct - n; return Out(); }
        if (o.is("pluseq")) { if (!in(s.pos + n)) return Out("skip"); Far& r = (s += n); return words({&r == &s}); }
        if (o.is("minuseq")) { if (!in(s.pos - n)) return Out("skip"); Far& r = (s -= n); return words({&r == &s}); }
        if (o.is("next")) { if (!in(s.pos + n)) return Out("skip"); Far const was = s; Far r = std::next(s, n); bool same = s == was; std::advance(s, n); return words({same && r == s && std::distance(was, s) == n}); }
        if (o.is("inc")) { if (!in(s.pos + 1)) return Out("skip"); Far& r = ++s; return words({&r == &s}); }
        if (o.is("dec")) { if (!in(s.pos - 1)) return Out("skip"); Far& r = --s; return words({&r == &s}); }
        if (o.is("deref")) return words({*cs});
        if (o.is("cmp")) return words({cs == ct, cs != ct, cs < ct, cs <= ct, cs > ct, cs >= ct, cs - ct, ct - cs});
        if (o.is("walk")) { if (s.pos > t.pos || t.pos - s.pos > N) return Out("skip"); std::vector<long> v; for (Far i = s; i != t && long(v.size()) <= N; ++i) v.push_back(*i); return words(v); }
        return Out("badop");
    };
    return run_scripts(argc, argv, perform, [&] { std::vector<Ints> p; for (int s = 1; s <= S; ++s) p.push_back(word(it[s].pos)); return obj({{"p", js(p)}, {"a", cells(a)}, {"b", cells(b)}}); });
}
int main(int argc, char** argv) {
    std::string k = argv[3]; int S = atoi(argv[4]), N = atoi(argv[5]);
    if (k == "ra") return run<RA<Cell>>(argc, argv, S, N);
    if (k == "far") { fresh(N); return run_far(argc, argv, S, N); }
    if (k == "fwd") return run<Fwd>(argc, argv, S, N);
    return run_pair(argc, argv, S, N);
}
