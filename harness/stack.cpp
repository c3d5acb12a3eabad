// Asks for stack traces from known chains of calls. Built with src/stack_trace.cpp, with tracing and without.
#include <iostream>
#include <unwind.h>
extern "C" unsigned long __sanitizer_get_current_allocated_bytes();     // from the address sanitizer
#include "stack_trace.hpp"
#include "common.hpp"
// the calls still to make: functions of kinds *rest, then the asking one
struct Chain { const int* rest; int n; };
static int active = 0;
#define BODY { next(c); asm volatile("" ::: "memory"); }
#define ATTR __attribute__((noinline, noipa))
using Fn = void (*)(Chain);
ATTR void asking_frame(Chain);
static Fn table(int k);
#define next(c) do { Chain d{c.rest + 1, c.n - 1}; if (c.n == 0) asking_frame(c); else table(c.rest[0])(d); } while (0)
ATTR void plain_frame(Chain c) BODY
extern "C" ATTR void c_frame(Chain c) BODY
template<int N> ATTR void template_frame(Chain c) BODY
struct Holder { ATTR static void member_frame(Chain c) BODY };
ATTR static void hidden_frame(Chain c) BODY
namespace { ATTR void hidden_frame_too(Chain c) BODY }
// a name of well over two thousand characters, the last of which count
template<class...> struct A_rather_long_name_of_a_template_of_which_there_are_many_instances { }; struct the_last_of_all { };
template<class T> using L4 = A_rather_long_name_of_a_template_of_which_there_are_many_instances<int, A_rather_long_name_of_a_template_of_which_there_are_many_instances<char, A_rather_long_name_of_a_template_of_which_there_are_many_instances<long, A_rather_long_name_of_a_template_of_which_there_are_many_instances<bool, T>>>>;
template<class T> struct Frame { ATTR static void long_frame(Chain c) BODY  };
static Fn table(int k) {
    switch (k) { case 1: return &plain_frame; case 2: return &c_frame; case 3: return &template_frame<7>; case 4: return &Holder::member_frame; case 5: return &hidden_frame; case 7: return &Frame<L4<L4<L4<L4<L4<L4<L4<L4<the_last_of_all>>>>>>>>>::long_frame; default: return &hidden_frame_too; }
}
static void (*volatile trace)() = &Helper::stack_trace;
static int times = 1;
ATTR void asking_frame(Chain) {
    active = 1;         // the tracing itself
    _Unwind_Backtrace([](_Unwind_Context* c, void*) { if (_Unwind_GetIP(c)) ++active; return _URC_NO_REASON; }, nullptr);
    for (int i = 0; i < times; ++i) trace();
    asm volatile("" ::: "memory");
}
// where the error stream goes: no storage of its own
struct Sink : std::streambuf {
    char text[2000000]; Sink() { clear(); } void clear() { setp(text, text + sizeof text); }
    std::string str() { return std::string(pbase(), pptr()); }
};
static int classify(std::string const& l) {
    if (l.find_first_not_of(" \t") == std::string::npos) return -2;
    if (l.find("asking_frame") != std::string::npos) return 99;
    if (l.find("long_frame") != std::string::npos) return l.find("the_last_of_all") != std::string::npos ? 7 : -4;
    if (l.find("plain_frame") != std::string::npos) return 1;
    if (l.find("c_frame") != std::string::npos) return 2;
    if (l.find("template_frame") != std::string::npos) return 3;
    if (l.find("member_frame") != std::string::npos) return 4;
    if (l.find("hidden_frame") != std::string::npos) return -3;
    if (l.find("11stack_trace") != std::string::npos || l.find("Helper::stack_trace") != std::string::npos) return 0;
    return -1;
}
int main(int argc, char** argv) {
    std::vector<int> stack; static Sink sink; static char before[2000000];
    return run_scripts(argc, argv, [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { stack.clear(); return Out(); }
        if (o.is("call")) { stack.push_back(o.i(1)); return Out(); }
        if (o.is("run")) { for (int i = 0; i < o.i(2); ++i) stack.push_back(o.i(1)); return Out(); }
        if (o.is("ret")) { for (int i = 0; i < o.i(1) && !stack.empty(); ++i) stack.pop_back(); return Out(); }
        if (!o.is("trace")) return Out("badop");
        auto* was = std::cerr.rdbuf(&sink); auto flags = std::cerr.flags(); auto fill = std::cerr.fill();
        Chain c{stack.data(), int(stack.size())};
        sink.clear(); times = 1; next(c); std::cerr.clear();            // once before: what is loaded on first use stays
        sink.clear();
        if (o.i(1) == 2) { std::cerr << std::hex << std::showbase; std::cerr.fill('*'); }
        auto f1 = std::cerr.flags(); auto g1 = std::cerr.fill(); auto p1 = std::cerr.precision();
        times = o.i(1) == 3 ? 2 : 1;
        size_t a = __sanitizer_get_current_allocated_bytes();
        next(c);
        size_t b = __sanitizer_get_current_allocated_bytes();
        bool usable = std::cerr.good(), kept = std::cerr.flags() == f1 && std::cerr.fill() == g1 && std::cerr.precision() == p1 && std::cerr.width() == 0;
        std::string text = sink.str();
        std::cerr << "marker"; usable = usable && sink.str() == text + "marker";
        std::cerr.clear(); std::cerr.flags(flags); std::cerr.fill(fill); std::cerr.rdbuf(was);
        if (!text.empty() && text.back() != '\n') return Out("unfinished line");
        Ints lines; std::istringstream is(text); std::string l; while (std::getline(is, l)) lines.push_back(classify(l));
        if (times == 2) {       // the same twice
            size_t h = lines.size() / 2; if (lines.size() % 2 || Ints(lines.begin(), lines.begin() + h) != Ints(lines.begin() + h, lines.end())) return Out("second trace differs");
            lines.resize(h);
        }
        Ints v{int(lines.size()), active, usable, kept, int(b - a)}; v.insert(v.end(), lines.begin(), lines.end());
        return Out("ok", js(v));
    }, [&] { return obj({{"depth", js(int(stack.size()))}}); });
}
