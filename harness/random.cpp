// Drives the randomisers and the random generator.
#include <cstdint>
#include <memory>
#include <unistd.h>
#include "randomiser.hpp"
#include "common.hpp"
using namespace Helper;
using Nums = std::vector<Ints>;
static uint64_t num(Ints const& d) { uint64_t r = 0; for (int x : d) r = (r << 16) | uint64_t(x); return r; }
static Ints digits(uint64_t x) { return Ints{int(x >> 48), int(x >> 32 & 0xffff), int(x >> 16 & 0xffff), int(x & 0xffff)}; }
// order preserving maps to and from 64-bit unsigned numbers
template<class T> struct Map {
    static constexpr uint64_t shift = std::is_signed_v<T> ? uint64_t(1) << 63 : 0;
    static uint64_t key(T x) { return uint64_t(int64_t(x)) + (std::is_signed_v<T> ? shift : 0); }
    static T value(uint64_t k) { return T(k - shift); }
};
template<class F, class U> struct RealMap {
    static constexpr U sign = U(1) << (8 * sizeof(U) - 1);
    static uint64_t key(F x) { if (x == 0) x = 0; U b; memcpy(&b, &x, sizeof b); return (b & sign) ? U(~b) : U(b | sign); }
    static F value(uint64_t k) { U b = U(k); b = (b & sign) ? U(b & ~sign) : U(~b); F x; memcpy(&x, &b, sizeof x); return x; }
};
template<> struct Map<double> : RealMap<double, uint64_t> { };
template<> struct Map<float> : RealMap<float, uint32_t> { };
struct Any {
    virtual ~Any() { }
    virtual uint64_t draw(int via) = 0;          // as an order preserving key
    virtual int cell(int way) = 0;               // draws; the part of the interval it falls in; way 1 coarse, 2 fine, 4 quarters
    virtual std::unique_ptr<Any> clone() const = 0;
    virtual uint64_t least() const = 0; virtual uint64_t greatest() const = 0;
};
template<class T> struct One : Any {
    static constexpr bool real = std::is_floating_point_v<T>;
    using R = std::conditional_t<real, UniformRealRandomiser<std::conditional_t<real, T, double>>, UniformIntRandomiser<std::conditional_t<real, int, T>>>;
    T lo, hi; R r;
    One(uint64_t l, uint64_t h) : lo(Map<T>::value(l)), hi(Map<T>::value(h)), r(lo, hi) { }
    T get(int via) { if (via == 1) return r.get(); RandomiserInterface<T>& i = r; return i.get(); }
    uint64_t draw(int via) override { return Map<T>::key(get(via)); }
    int cell(int way) override {
        T x = get(1);
        if (x < lo || x > hi || x != x) return 0;       // illegal: counted somewhere, the counts become uneven only if frequent
        int parts = way == 4 ? 4 : 8;
        if constexpr (real) {
            long double f = ((long double)x - (long double)lo) / ((long double)hi - (long double)lo);
            if (way == 2) f *= 65536 / 8, f -= (long double)(long)f;
            int c = int(f * parts); return c < parts ? c : parts - 1;
        } else {
            unsigned __int128 v = (unsigned __int128)((__int128)x - (__int128)lo), w = (unsigned __int128)((__int128)hi - (__int128)lo) + 1;
            if (w <= 16 && way != 4) return int(v);
            return way == 2 ? int(v % parts) : int(v * parts / w);
        }
    }
    std::unique_ptr<Any> clone() const override { return std::make_unique<One>(*this); }
    uint64_t least() const override { return Map<T>::key(lo); }
    uint64_t greatest() const override { return Map<T>::key(hi); }
};
static std::unique_ptr<Any> make(int t, uint64_t l, uint64_t h) {
    switch (t) {
        case 1: return std::make_unique<One<short>>(l, h);
        case 2: return std::make_unique<One<unsigned short>>(l, h);
        case 3: return std::make_unique<One<int>>(l, h);
        case 4: return std::make_unique<One<unsigned>>(l, h);
        case 5: return std::make_unique<One<long>>(l, h);
        case 6: return std::make_unique<One<unsigned long>>(l, h);
        case 7: return std::make_unique<One<long long>>(l, h);
        case 8: return std::make_unique<One<unsigned long long>>(l, h);
        case 11: return std::make_unique<One<double>>(l, h);
        default: return std::make_unique<One<float>>(l, h);
    }
}
// the generator state whose next outputs are the given words
static uint32_t untemper(uint32_t y) {
    y ^= y >> 18; y ^= (y << 15) & 0xefc60000u;
    uint32_t x = y; for (int i = 0; i < 5; ++i) x = y ^ ((x << 7) & 0x9d2c5680u); y = x;
    for (int i = 0; i < 3; ++i) x = y ^ (x >> 11);
    return x;
}
static void force(std::vector<uint32_t> const& words) {
    std::stringstream ss; ss << RANDOM_GENERATOR.engine();
    std::vector<unsigned long> st(624); for (auto& x : st) ss >> x;
    for (size_t i = 0; i < words.size(); ++i) st[i] = untemper(words[i]);
    std::stringstream ts; for (auto x : st) ts << x << " "; ts << 0;
    ts >> RANDOM_GENERATOR.engine();
}
int main(int argc, char** argv) {
    if (argc == 2) { auto& e = RANDOM_GENERATOR.engine(); printf("%lu %lu\n", (unsigned long)e(), (unsigned long)e()); return 0; }
    const int N = 100000; int S = atoi(argv[3]);
    { std::mt19937 e; force({7, 0xffffffffu, 0x80000000u}); auto& g = RANDOM_GENERATOR.engine(); if (g() != 7 || g() != 0xffffffffu || g() != 0x80000000u) { fprintf(stderr, "driver: cannot set the generator's state\n"); } }
    std::vector<std::unique_ptr<Any>> r(S + 1); std::vector<int> type(S + 1, 0);
    auto counts = [](std::vector<int> const& c) { Nums v; for (int x : c) v.push_back({x}); return Out("ok", js(v)); };
    return run_scripts(argc, argv, [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { for (int s = 1; s <= S; ++s) { r[s].reset(); type[s] = 0; } return Out(); }
        if (o.is("gens")) {
            std::set<std::pair<unsigned long, unsigned long>> seen;
            seen.insert({RANDOM_GENERATOR.engine()(), RANDOM_GENERATOR.engine()()});
            for (int i = 1; i < o.i(2); ++i) { RandomGenerator g; unsigned long x = g.engine()(), y = g.engine()(); seen.insert({x, y}); }
            return counts({int(seen.size())});
        }
        if (o.is("procs")) {
            std::set<std::string> seen; char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); if (n < 0) return Out("noself"); self[n] = 0;
            for (int i = 0; i < o.i(2); ++i) { FILE* p = popen((std::string("'") + self + "' first").c_str(), "r"); char b[100] = ""; if (!p || !fgets(b, sizeof b, p)) return Out("noproc"); pclose(p); seen.insert(b); }
            return counts({int(seen.size())});
        }
        int s = o.i(1);
        if (o.is("mk")) { r[s] = make(o.i(2), num(o.ints(3)), num(o.ints(4))); type[s] = o.i(2); return Out(); }
        if (o.is("cp")) { int t = o.i(2); if (s != t) { r[s] = r[t] ? r[t]->clone() : nullptr; type[s] = type[t]; } return Out(); }
        if (!r[s]) return Out("skip");
        Any& a = *r[s];
        bool real = type[s] > 10; uint64_t span = a.greatest() - a.least();
        // whether the parts of the interval are counted (the specification's Few and Wide; the rest are narrow)
        auto wide = [](Any& x, bool re) { uint64_t w = x.greatest() - x.least(); return re ? w > 100000 : w >= (uint64_t(1) << 20); };
        if (o.is("draw")) return Out("ok", js(Nums{digits(a.draw(o.i(2)))}));
        if (o.is("force")) {
            Ints d = o.ints(2); uint32_t x = uint32_t(d[0]) << 16 | uint32_t(d[1]), y = uint32_t(d[2]) << 16 | uint32_t(d[3]);
            force({x, y, x, y}); return Out("ok", js(Nums{digits(a.draw(1))}));
        }
        if (o.is("many")) { uint64_t lo = UINT64_MAX, hi = 0; for (int i = 0; i < N; ++i) { uint64_t x = a.draw(1); lo = std::min(lo, x); hi = std::max(hi, x); } return Out("ok", js(Nums{digits(lo), digits(hi)})); }
        if (o.is("hist")) {
            bool few = !real && span <= 15; if (!few && !wide(a, real)) return Out("skip");
            std::vector<int> c(few ? span + 1 : 8); for (int i = 0; i < N; ++i) ++c[a.cell(o.i(2))];
            return counts(c);
        }
        if (o.is("pair")) {
            int t = o.i(2); if (!r[t] || !wide(a, real) || !wide(*r[t], type[t] > 10)) return Out("skip");
            std::vector<int> c(16); for (int i = 0; i < N; ++i) { int x = a.cell(4); ++c[4 * x + r[t]->cell(4)]; }
            return counts(c);
        }
        if (o.is("fresh")) {
            if (real || span < (uint64_t(1) << 62)) return Out("skip");
            std::set<uint64_t> seen; for (int i = 0; i < o.i(2); ++i) seen.insert(a.draw(1));
            return counts({int(seen.size())});
        }
        return Out("badop");
    }, [&] {
        std::string v = "["; for (int s = 1; s <= S; ++s) v += std::string(s > 1 ? "," : "") + "[" + js(type[s]) + "," + js(digits(r[s] ? r[s]->least() : 0)) + "," + js(digits(r[s] ? r[s]->greatest() : 0)) + "]";
        return obj({{"r", v + "]"}});
    });
}
