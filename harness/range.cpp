// Drives Range and RangeIterator over the whole range of size_t.
#include <cstddef>
#include "range.hpp"
#include "common.hpp"
using namespace Helper;
static size_t num(Op const& o, int f) { Ints d = o.ints(f); size_t r = 0; for (int x : d) r = (r << 16) | size_t(x); return r; }
static Ints digits(size_t x) { return Ints{int(x >> 48), int(x >> 32 & 0xffff), int(x >> 16 & 0xffff), int(x & 0xffff)}; }
using Nums = std::vector<Ints>;
int main(int argc, char** argv) {
    int S = atoi(argv[3]), I = atoi(argv[4]); size_t W = atoi(argv[5]);
    std::vector<Range> r(S + 1, Range(0, 0));
    std::vector<RangeIterator> it(I + 1, RangeIterator(0));
    auto ok = [](Nums v) { return Out("ok", js(v)); };
    return run_scripts(argc, argv, [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { for (auto& x : r) x = Range(0, 0); for (auto& x : it) x = RangeIterator(0); return Out(); }
        int s = o.i(1);
        if (o.is("mk") || o.is("range2")) {
            if (num(o, 2) > num(o, 3)) return Out("skip");
            r[s] = o.is("mk") ? Range(num(o, 2), num(o, 3)) : range(num(o, 2), num(o, 3)); return Out();
        }
        if (o.is("range1")) { r[s] = range(num(o, 2)); return Out(); }
        if (o.is("cp")) { Range const c(r[o.i(2)]); r[s] = c; return Out(); }
        if (o.is("ask")) { Range const& c = r[s]; return ok({digits(c.size()), digits(c.start()), digits(c.stop()), digits(c.stride())}); }
        if (o.is("at")) { Range const& c = r[s]; if (num(o, 2) > c.stop() - c.start()) return Out("skip"); return ok({digits(c[num(o, 2)])}); }
        if (o.is("last")) { Range const& c = r[s]; if (c.stop() == c.start()) return Out("skip"); return ok({digits(c[c.size() - 1])}); }
        if (o.is("for")) { if (r[s].stop() - r[s].start() > W) return Out("skip"); Nums v; for (size_t i : r[s]) { v.push_back(digits(i)); if (v.size() > W + 2) break; } return ok(v); }
        if (o.is("iter")) {
            if (r[s].stop() - r[s].start() > W) return Out("skip");
            Nums v; RangeIterator e = end(r[s]); for (RangeIterator i = begin(r[s]); i != e; ++i) { v.push_back(digits(*i)); if (v.size() > W + 2) break; } return ok(v);
        }
        if (o.is("begin")) { it[s] = begin(r[o.i(2)]); return Out(); }
        if (o.is("finish")) { it[s] = end(r[o.i(2)]); return Out(); }
        if (o.is("inc")) { if (*it[s] == size_t(-1)) return Out("skip"); RangeIterator& x = ++it[s]; return ok({digits(&x == &it[s])}); }
        if (o.is("icp")) { RangeIterator const c(it[o.i(2)]); it[s] = c; return Out(); }
        if (o.is("deref")) { RangeIterator const& c = it[s]; return ok({digits(*c)}); }
        if (o.is("ne")) return ok({digits(it[s] != it[o.i(2)])});
        return Out("badop");
    }, [&] {
        std::vector<Nums> v; for (int s = 1; s <= S; ++s) v.push_back({digits(r[s].start()), digits(r[s].stop())});
        Nums w; for (int i = 1; i <= I; ++i) w.push_back(digits(*it[i]));
        return obj({{"r", js(v)}, {"i", js(w)}});
    });
}
