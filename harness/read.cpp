// Drives read_sequence, operator>> for vectors, and operator<< of containers.
#include <iostream>
#include <memory>
#include "string.hpp"
#include "container.hpp"
#include "stlio.hpp"
#include "common.hpp"
using namespace Helper;
template<class C> std::string enc(C const& c) { std::vector<int> v; for (auto const& x : c) v.push_back(x); return js(v); }
std::string enc(std::vector<std::vector<int>> const& c) { return js(c); }
std::string enc(std::vector<char> const& c) { Ints v; for (char x : c) v.push_back((unsigned char)x); return js(v); }
std::string enc(std::vector<double> const& c) {      // mantissa and number of decimals
    std::vector<Ints> v;
    for (double x : c) { char b[40]; snprintf(b, sizeof b, "%.9g", x); std::string t(b); size_t p = t.find('.');
        if (t.find_first_of("ein") != std::string::npos) { v.push_back({-1, -1}); continue; }
        int d = 0; if (p != std::string::npos) { d = int(t.size() - p - 1); t.erase(p, 1); } v.push_back({std::atoi(t.c_str()), d}); }
    return js(v); }
static double real(Ints const& x) { double r = x[0]; for (int i = 0; i < x[1]; ++i) r /= 10; return r; }
static std::vector<Ints> nested(std::string const& t) { Op o; o.f.push_back(t); return o.intss(0); }
int main(int argc, char** argv) {
    List<int> lst; LinkedList<int> lnk; std::vector<int> vec; std::vector<std::vector<int>> nst; std::vector<char> chs; List<bool> bls; List<double> rls; std::string obs = "[9]";
    const char* D = "[],();{}|";
    auto reset = [&] { lst = List<int>{9, 9}; lnk = LinkedList<int>(); lnk.append(9); vec = {9}; nst = {{9}}; chs = {'9'}; bls = List<bool>{true, true}; rls = List<double>{9.5}; };
    reset();
    auto perform = [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { reset(); obs = "[9]"; return Out(); }
        std::string k = o.s(1);
        if (o.is("read")) {
            std::istringstream is(o.text(3)); char op = D[3 * (o.i(2) - 1)], cl = D[3 * (o.i(2) - 1) + 1], se = D[3 * (o.i(2) - 1) + 2];
            bool std_ = o.i(2) == 1;
            try {
                if (k == "vector") { if (std_) is >> vec; else read_sequence(is, vec, op, cl, se); obs = enc(vec); }
                else if (k == "list") { if (std_) read_sequence(is, lst); else read_sequence(is, lst, op, cl, se); obs = enc(lst); }
                else if (k == "linked") { if (std_) read_sequence(is, lnk); else read_sequence(is, lnk, op, cl, se); obs = enc(lnk); }
                else if (k == "chars") { if (std_) is >> chs; else read_sequence(is, chs, op, cl, se); obs = enc(chs); }
                else if (k == "bools") { if (std_) is >> bls; else read_sequence(is, bls, op, cl, se); obs = enc(bls); }
                else if (k == "reals") { if (std_) is >> rls; else read_sequence(is, rls, op, cl, se); obs = enc(static_cast<std::vector<double> const&>(rls)); }
                else { if (std_) is >> nst; else read_sequence(is, nst, op, cl, se); obs = enc(nst); }
                if (!is.good()) return Out("badstream");
                std::string rest(std::istreambuf_iterator<char>(is), {});
                return Out("ok", codes(rest));
            } catch (std::ios_base::failure const&) { reset(); obs = "[9]"; return Out("fail"); }
        }
        if (o.is("round")) {
            std::stringstream s; std::string text;
            if (k == "nested") { std::vector<std::vector<int>> v; for (auto& x : nested(o.s(2))) v.push_back(x);
                List<List<int>> l; for (auto& x : v) l.push_back(List<int>(x)); s << l; text = s.str(); s >> nst; obs = enc(nst); }
            else if (k == "list") { List<int> l; for (int x : o.ints(2)) l.append(x); s << l; text = s.str(); read_sequence(s, lst); obs = enc(lst); }
            else if (k == "linked") { LinkedList<int> l; for (int x : o.ints(2)) l.append(x); s << l; text = s.str(); read_sequence(s, lnk); obs = enc(lnk); }
            else if (k == "chars") { List<char> l; for (int x : o.ints(2)) l.append(char(x)); s << l; text = s.str(); s >> chs; obs = enc(chs); }
            else if (k == "bools") { List<bool> l; for (int x : o.ints(2)) l.append(x != 0); s << l; text = s.str(); s >> bls; obs = enc(bls); }
            else if (k == "reals") { std::vector<double> l; for (auto& x : nested(o.s(2))) l.push_back(real(x)); s << make_array(l); text = s.str(); s >> rls; obs = enc(static_cast<std::vector<double> const&>(rls)); }
            else { std::vector<int> l = o.ints(2); s << make_array(l); text = s.str(); s >> vec; obs = enc(vec); }
            return Out("ok", codes(text));
        }
        return Out("badop");
    };
    return run_scripts(argc, argv, perform, [&] { return obj({{"a", obs}}); });
}
