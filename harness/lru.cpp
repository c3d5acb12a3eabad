// Drives Helper::LRUCache. Argument 3: the label/value types; argument 4: "lru" (ages) or "store" (values).
#include <iostream>
#include <memory>
#include "string.hpp"
#include "lru_cache.hpp"
#include "common.hpp"
using namespace Helper;

struct IntInt { using L = int; using V = int; static L lab(int i) { return i; } static V mk(int v) { return v; } static int un(V const& v) { return v; } };
struct StrStr { using L = String; using V = String;   // labels in descending map order
    static L lab(int i) { return String("k" + std::to_string(10000 - i)); }
    static V mk(int v) { return String(std::string(40, 'v') + std::to_string(v)); }
    static int un(V const& v) { return v.size() > 40 ? std::atoi(v.c_str() + 40) : -1; } };
struct TraTra { using L = Tracked; using V = Tracked;   // labels in scrambled map order
    static L lab(int i) { return Tracked((i * 5003) % 10007); } static V mk(int v) { return Tracked(v); } static int un(V const& v) { return v.get(); } };

// 10^9 + n stands for 2^32 + n
static size_t wide_size(int n) { return n < 1000000000 ? size_t(n) : (size_t(1) << 32) + size_t(n - 1000000000); }
static int shown_size(size_t n) { return n >> 32 ? int(n - (size_t(1) << 32)) + 1000000000 : int(n); }

template<class K> int drive(int argc, char** argv, bool values, bool wide) {
    using Cache = LRUCache<typename K::L, typename K::V>;
    std::unique_ptr<Cache> c; int nl = std::atoi(argv[5]);
    auto perform = [&](Op const& o) -> Out {
        Tracked::armed = 0;
        if (o.is("new")) {
            c.reset();
            try { c.reset(new Cache(wide_size(o.i(1)))); } catch (std::exception&) { return Out("throw"); }
            return Out();
        }
        if (!c) return Out("nocache");
        if (o.is("become")) {   // a copy of itself, made in one of two ways
            if (std::is_copy_assignable_v<Cache> && c->current_size() % 2) { std::unique_ptr<Cache> d(new Cache(7)); if constexpr (std::is_copy_assignable_v<Cache>) *d = *c; c = std::move(d); }
            else { std::unique_ptr<Cache> d(new Cache(*c)); c = std::move(d); }
            return Out();
        }
        auto l = K::lab(o.i(1));
        try {
            if (o.is("has")) return Out("ok", js(Ints{c->has_label(l) ? 1 : 0}));
            if (o.is("age")) return Out("ok", js(Ints{int(c->age(l))}));
            if (o.is("get")) return Out("ok", js(Ints{K::un(c->get(l))}));
            if (o.is("put")) { c->put(l, K::mk(o.i(2))); return Out(); }
            if (o.is("copied")) {
                Cache d(*c); Ints in;
                if (d.has_label(l)) d.get(l); else d.put(l, K::mk(o.i(2)));
                for (int x = 1; x <= nl; ++x) in.push_back(d.has_label(K::lab(x)) ? K::un(d.get(K::lab(x))) : 0);
                return Out("ok", js(in));
            }
            if (o.is("fill")) {
                Ints done;
                for (int x = o.i(1); x <= o.i(2); ++x) {
                    int ok = 1;
                    if (x % 1000 == 0) alarm(20);   // the time allowed is for each part of a long run
                    try { c->put(K::lab(x), K::mk(o.i(3))); } catch (std::exception const&) { ok = 0; }
                    done.push_back(ok);
                }
                return Out("ok", js(done));
            }
            if (o.is("touch")) {
                Ints got;
                for (int x = o.i(1); x <= o.i(2); ++x) {
                    int v = 0;
                    try { v = K::un(c->get(K::lab(x))); } catch (std::exception const&) { }
                    got.push_back(v);
                }
                return Out("ok", js(got));
            }
            if (o.is("again")) {
                int v = K::un(c->get(l));
                for (int n = o.i(2); n > 1; --n) if (K::un(c->get(l)) != v) v = -1;
                return Out("ok", js(Ints{v}));
            }
            if (o.is("putfrom")) { c->put(l, c->get(K::lab(o.i(2)))); return Out(); }
            if (o.is("putfault")) {
                auto v = K::mk(o.i(2));
                Tracked::armed = o.i(3);
                try { c->put(l, v); } catch (...) { Tracked::armed = 0; throw; }
                Tracked::armed = 0; return Out();
            }
        } catch (Fault const&) { return Out("fault"); }
          catch (std::exception const&) { return Out("throw"); }
        return Out("badop");
    };
    auto observe = [&]() -> std::string {
        Ints ages, has, vals;
        if (wide && nl > 60000) {   // ages of some of the labels
            for (int x = 1; x <= nl; ++x) if (x <= 13 || x > nl - 13 || x % 3000 == 0) ages.push_back(c && c->has_label(K::lab(x)) ? int(c->age(K::lab(x))) : -1);
            return obj({{"size", js(c ? int(c->current_size()) : 0)}, {"max", js(c ? shown_size(c->maximum_size()) : 0)}, {"ages", js(ages)}});
        }
        if (wide) {   // the resident labels by age, and how many residents have no place of their own
            size_t n = c ? c->current_size() : 0; Ints byage(n, 0); int others = 0;
            for (int i = 1; c && i <= nl; ++i) if (c->has_label(K::lab(i))) {
                size_t a = c->age(K::lab(i));
                if (a < n && byage[a] == 0) byage[a] = i; else ++others;
            }
            return obj({{"size", js(n)}, {"max", js(c ? shown_size(c->maximum_size()) : 0)}, {"byage", js(byage)}, {"others", js(others)}});
        }
        for (int i = 1; i <= nl; ++i) {
            bool h = c && c->has_label(K::lab(i));
            has.push_back(h); ages.push_back(h ? int(c->age(K::lab(i))) : -1);
        }
        if (!values) return obj({{"size", js(c ? int(c->current_size()) : 0)}, {"max", js(c ? shown_size(c->maximum_size()) : 0)},
                                 {"ages", js(ages)}, {"has", js(has)}});
        // values are read from a copy, because retrieving changes ages
        std::unique_ptr<Cache> d; if (c) d.reset(new Cache(*c));
        for (int i = 1; i <= nl; ++i) vals.push_back(has[size_t(i - 1)] ? K::un(d->get(K::lab(i))) : 0);
        if (Tracked::bad) vals.push_back(-12345);   // an operation touched an object that was not alive
        return obj({{"store", js(vals)}, {"ages", js(ages)}});
    };
    return run_scripts(argc, argv, perform, observe);
}

int main(int argc, char** argv) {
    std::string k = argv[3]; bool values = std::string(argv[4]) == "store", wide = std::string(argv[4]) == "wide";
    if (k == "int") return drive<IntInt>(argc, argv, values, wide);
    if (k == "str") return drive<StrStr>(argc, argv, values, wide);
    return drive<TraTra>(argc, argv, values, wide);
}
