// Drives the text forms of BinaryWord.
#include <iostream>
#include <iomanip>
#include "binary_word.hpp"
#include "common.hpp"
using namespace Helper;
static BinaryWord word(Ints const& b) { BinaryWord w; for (int x : b) w.push_back(x != 0); return w; }
static Ints bits(BinaryWord const& w) { Ints v; for (bool b : w) v.push_back(b); return v; }
int main(int argc, char** argv) {
    const BinaryWord old = word({1, 1, 0}); BinaryWord a = old; std::ostringstream os;
    auto fmt = [&](int base, int pos, int alpha) {
        os << (base == 16 ? std::hex : std::dec) << (pos ? std::showpos : std::noshowpos) << (alpha ? std::boolalpha : std::noboolalpha); };
    os.precision(9); os.fill('*'); fmt(10, 0, 0);
    const std::ios::fmtflags used = std::ios::basefield | std::ios::showpos | std::ios::boolalpha, rest = os.flags() & ~used;
    auto perform = [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { a = old; fmt(10, 0, 0); return Out(); }
        if (o.is("fmt")) { Ints g = o.ints(1); fmt(g[0], g[1], g[2]); return Out(); }
        if (o.is("write")) { BinaryWord w = word(o.ints(1)); BinaryWord const& c = w; os << c; std::string t = os.str(); os.str(""); if (bits(w) != o.ints(1)) return Out("changed"); return Out("ok", codes(t)); }
        if (o.is("read")) {
            std::istringstream is(o.text(1)); a = old;
            try { is >> a; } catch (std::ios_base::failure const&) { a = old; return Out("fail"); }
            if (is.fail()) { a = old; return Out("none"); }
            is.clear(); std::string r(std::istreambuf_iterator<char>(is), {});
            return Out("ok", codes(r));
        }
        if (o.is("make")) {
            bool f1 = false, f2 = false; BinaryWord x, y;
            try { x = BinaryWord(o.text(1)); } catch (std::ios_base::failure const&) { f1 = true; }
            try { y = make_binary_word(o.text(1)); } catch (std::ios_base::failure const&) { f2 = true; }
            if (f1 != f2 || !(x == y)) return Out("differ");
            if (f1) { a = old; return Out("fail"); }
            a = x; return Out();
        }
        if (o.is("many")) {
            std::vector<Ints> ws = o.intss(1), back; Ints how = o.ints(2); std::stringstream s;
            for (size_t i = 0; i != ws.size(); ++i) {
                if (how[i] == 1) s << word(ws[i]) << ' ';
                else { s << '['; for (size_t j = 0; j != ws[i].size(); ++j) s << (j ? "," : "") << ws[i][j]; s << "] "; } }
            for (size_t i = 0; i != ws.size(); ++i) { BinaryWord w = old; if (!(s >> w)) return Out("fail"); back.push_back(bits(w)); }
            return Out("ok", js(back));
        }
        if (o.is("huge")) {
            BinaryWord w, r = old; unsigned x = unsigned(o.i(1)); std::stringstream s;
            for (int i = 0; i < o.i(1); ++i) { x = x * 1103515245u + 12345u; w.push_back((x >> 16) & 1); }
            if (o.i(2) == 1) s << w; else { s << '['; for (size_t j = 0; j != w.size(); ++j) s << (j ? "," : "") << int(w[j]); s << ']'; }
            s << " x"; if (!(s >> r)) return Out("fail");
            s.clear(); std::string rest(std::istreambuf_iterator<char>(s), {}); Ints v{w == r && r.size() == size_t(o.i(1))}; for (unsigned char c : rest) v.push_back(c);
            return Out("ok", js(v));
        }
        return Out("badop");
    };
    return run_scripts(argc, argv, perform, [&] {
        bool misc = (os.flags() & ~used) == rest && os.precision() == 9 && os.fill() == '*' && os.good() && os.str().empty();
        return obj({{"a", js(bits(a))}, {"f", js(Ints{(os.flags() & std::ios::hex) ? 16 : 10, (os.flags() & std::ios::showpos) ? 1 : 0, (os.flags() & std::ios::boolalpha) ? 1 : 0})}, {"misc", js(misc)}}); });
}
