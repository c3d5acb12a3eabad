// Drives the algebra of BinaryWord.
#include <iostream>
#include "binary_word.hpp"
#include "common.hpp"
using namespace Helper;
int main(int argc, char** argv) {
    int S = atoi(argv[3]); std::vector<BinaryWord> w(S + 1);
    auto yes = [](bool b) { return Out("ok", js(Ints{b ? 1 : 0})); };
    auto perform = [&](Op const& o) -> Out {
        if (o.is("rel")) {
            std::vector<Ints> rows;
            for (size_t i = 1; i < w.size(); ++i) for (size_t j = 1; j < w.size(); ++j) { BinaryWord const &a = w[i], &b = w[j]; rows.push_back(Ints{a.is_prefix(b), a.is_subword(b), a < b, a == b}); }
            return Out("ok", js(rows));
        }
        if (o.is("new") || o.is("end")) { for (auto& x : w) x = BinaryWord(); return Out(); }
        BinaryWord& a = w[o.i(1)];
        if (o.is("mk")) { std::string t; for (int b : o.ints(2)) t += char('0' + b); a = BinaryWord(t); return Out(); }
        if (o.is("def")) { a = BinaryWord(); return Out(); }
        if (o.is("cp")) { BinaryWord c(w[o.i(2)]); a = std::move(c); return Out(); }
        if (o.is("asg")) { a = w[o.i(2)]; return Out(); }
        if (o.is("bit")) { a.append(o.i(2) != 0); return Out(); }
        if (o.is("word")) { a.append(w[o.i(2)]); return Out(); }
        if (o.is("erase")) { a.erase_prefix(o.i(2)); return Out(); }
        if (o.is("back")) { if (a.empty()) return Out("skip"); a.set_back(o.i(2) != 0); return Out(); }
        BinaryWord const& c = a;
        if (o.is("bytes")) return Out("ok", js(std::vector<unsigned long>{c.bytes(), c.size()}));
        BinaryWord const& d = w[o.i(2)];
        if (o.is("prefix")) return yes(c.is_prefix(d));
        if (o.is("sub")) return yes(c.is_subword(d));
        if (o.is("less")) return yes(c < d);
        if (o.is("eq")) return yes(c == d);
        return Out("badop");
    };
    return run_scripts(argc, argv, perform, [&] {
        std::vector<Ints> v; for (int s = 1; s <= S; ++s) { Ints x; for (bool b : w[s]) x.push_back(b); v.push_back(x); }
        return obj({{"w", js(v)}}); });
}
