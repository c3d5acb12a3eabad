// Uses every macro of macros.hpp. Built twice: as a debug build and, with NDEBUG, as a release build.
#include <atomic>
#include <iostream>
#include <string>
#include <thread>
#include <utility>
#include "macros.hpp"
#include "common.hpp"
static int evals = 0, says = 0;
struct Truth {      // a condition that counts its evaluations and prints its name
    const char* name; bool v;
    explicit operator bool() const { ++evals; return v; }
    friend std::ostream& operator<<(std::ostream& os, Truth const& t) { return os << t.name; }
};
struct Value {
    int v;
    friend bool operator==(Value const& a, Value const& b) { return a.v == b.v; }
    friend int operator&(Value const& a, int b) { return a.v & b; }
    friend std::ostream& operator<<(std::ostream& os, Value const& t) { return os << t.v; }
};
struct Own : std::exception { std::string w; Own(std::string const& s = "") : w(s) { } const char* what() const noexcept override { return w.c_str(); } };
static bool check(int c) { ++evals; return c != 0; }
static int tick(int c) { ++evals; return c; }
static int value(int c) { ++evals; return c; }
static bool never() { return false; }
static bool explode(int) { ++evals; throw Own("exploded"); }
// part of an explanation: while it is made, another assertion fails
static int say(int x) { ++says; try { HELPER_FAIL_MSG("another " << x) } catch (std::runtime_error const&) { } return x; }
static std::string pad;
#define COND(x) check(x)
#define MSG "because " << say(42) << ", " << ss << " " << result << " " << error << pad
#define LOCALS [[maybe_unused]] Truth result{"result", c != 0}, assertion_result{"assertion_result", c != 0}, ss{"ss", c != 0}, first_time{"first_time", c != 0}, error{"error", c != 0}, expression{"expression", c != 0};
#define PLAIN(M) [](int f, [[maybe_unused]] int c) { LOCALS switch (f) { \
    case 1: M(check(c)) break; \
    case 2: M(COND(c)) break; \
    case 3: M((std::pair<int,int>(tick(c),1).first==1)) break; \
    case 4: M(result) break; \
    case 5: M(assertion_result) break; \
    case 6: M(ss) break; \
    case 7: M(explode(c)) break; \
    case 8: M(check(c) && "50%d") break; \
    case 9: M(never() || check(c)) break; \
    case 10: M(check(c) ? 2 : 0) break; \
    case 11: M(value(c) == 1) break; \
    case 12: M(first_time) break; \
    case 13: M(error) break; \
    case 14: M(check(c) && (1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1)) break; \
    } }
#define EXPLAINED(M) [](int f, [[maybe_unused]] int c) { LOCALS switch (f) { \
    case 1: M(check(c), MSG) break; \
    case 2: M(COND(c), MSG) break; \
    case 3: M((std::pair<int,int>(tick(c),1).first==1), MSG) break; \
    case 4: M(result, MSG) break; \
    case 5: M(assertion_result, MSG) break; \
    case 6: M(ss, MSG) break; \
    case 7: M(explode(c), MSG) break; \
    case 8: M(check(c) && "50%d", MSG) break; \
    case 9: M(never() || check(c), MSG) break; \
    case 10: M(check(c) ? 2 : 0, MSG) break; \
    case 11: M(value(c) == 1, MSG) break; \
    case 12: M(first_time, MSG) break; \
    case 13: M(error, MSG) break; \
    case 14: M(check(c) && (1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1), MSG) break; \
    } }
static void equals(int f, int c) {
    int v = c ? 1 : 2; (void)v;
    { int c = v; Truth const hidden{"", true}; (void)hidden;
    switch (f) {
        case 1: HELPER_ASSERT_EQUAL(value(c), value(1)) break;
        case 2: HELPER_ASSERT_EQUAL(value(c) & 3, value(1)) break;
        case 3: c = c == 1; HELPER_ASSERT_EQUAL(COND(c), never() || value(1)) break;
        case 4: { int result = value(c); HELPER_ASSERT_EQUAL(result, value(1)) break; }
    } }
}
static void unreached(int f) {
    bool no = never(); int c = 0; LOCALS
    switch (f) {
        case 1: if (no) HELPER_ASSERT(check(c)) break;
        case 2: if (no) HELPER_ASSERT_MSG(check(c), MSG) break;
        case 3: if (no) HELPER_PRECONDITION(check(c)) break;
        case 4: if (no) HELPER_PRECONDITION_MSG(check(c), MSG) break;
        case 5: if (no) HELPER_DEBUG_ASSERT(check(c)) break;
        case 6: if (no) HELPER_ASSERT_EQUAL(value(c), value(1)) break;
        case 7: if (no) HELPER_FAIL_MSG(MSG) break;
        case 8: if (no) HELPER_DEBUG_PRECONDITION(check(c)) break;
    }
}
static void fail_msg(int c) { LOCALS HELPER_FAIL_MSG(MSG) }
static void not_implemented_here() { HELPER_NOT_IMPLEMENTED }
static void raise_it(std::string const& e, int f, int c) {
    LOCALS
    if (f == 1) { if (e == "runtime") HELPER_THROW(std::runtime_error, "someone", MSG) else if (e == "logic") HELPER_THROW(std::logic_error, "someone", MSG) else HELPER_THROW(Own, "someone", MSG) }
    else { std::string msg = "Some::where"; if (e == "runtime") HELPER_THROW(std::runtime_error, msg, MSG) else if (e == "logic") HELPER_THROW(std::logic_error, msg, MSG) else HELPER_THROW(Own, msg, MSG) }
}
// how many of n threads got, every time, the text of their own assertion
static int in_threads(int n) {
    std::vector<std::thread> ts; std::vector<int> good(size_t(n), 0); std::atomic<int> ready{0};
    for (int k = 0; k < n; ++k) ts.emplace_back([&, k] {
        ++ready; while (ready < n) { }
        int right = 0; std::string mine = "thread " + std::to_string(k) + std::string(size_t(200), char('a' + k)) + ".";
        for (int i = 0; i < 200; ++i) try { if (i % 2) HELPER_ASSERT_MSG(k < 0, mine) else HELPER_FAIL_MSG(mine) } catch (std::runtime_error const& e) { right += std::string(e.what()).find(mine) != std::string::npos; }
        good[size_t(k)] = right == 200;
    });
    for (auto& t : ts) t.join();
    int r = 0; for (int g : good) r += g; return r;
}
// places with a once-only message: as many copies of each as there are sessions
template<int K> void once(bool reach) { if (reach) HELPER_WARN_ONCE("because " << say(42)) }
template<int K> void deprecated(bool reach) { if (reach) HELPER_DEPRECATED(old_function, use the new one) }
template<int K> void both(bool) { HELPER_WARN_ONCE("because " << say(42)) HELPER_WARN_ONCE("because " << say(42)) }
static const int SITES = 3, COPIES = 48;
using Fn = void (*)(bool);
template<int... K> std::vector<Fn> onces(std::integer_sequence<int, K...>) { return {&once<K>...}; }
template<int... K> std::vector<Fn> deprecateds(std::integer_sequence<int, K...>) { return {&deprecated<K>...}; }
template<int... K> std::vector<Fn> boths(std::integer_sequence<int, K...>) { return {&both<K>...}; }
int main(int argc, char** argv) {
    using Use = void (*)(int, int);
    std::map<std::string, Use> uses{{"assert", PLAIN(HELPER_ASSERT)}, {"pre", PLAIN(HELPER_PRECONDITION)}, {"dassert", PLAIN(HELPER_DEBUG_ASSERT)}, {"dpre", PLAIN(HELPER_DEBUG_PRECONDITION)},
        {"assertmsg", EXPLAINED(HELPER_ASSERT_MSG)}, {"premsg", EXPLAINED(HELPER_PRECONDITION_MSG)}, {"dassertmsg", EXPLAINED(HELPER_DEBUG_ASSERT_MSG)}, {"equal", &equals}};
    auto seq = std::make_integer_sequence<int, SITES * COPIES>();
    auto o1 = onces(seq), o2 = deprecateds(seq), o3 = boths(seq);
    int session = -1; long lines = 0;
    return run_scripts(argc, argv, [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { if (o.is("new") && ++session >= COPIES) { fprintf(stderr, "driver: too many sessions\n"); _exit(2); } lines = 0; return Out(); }
        evals = says = 0;
        std::string const& cond = o.s(o.f.size() - 2); std::string const& msg = o.s(o.f.size() - 1);
        auto has = [](std::string const& t, std::string const& p) { return !p.empty() && t.find(p) != std::string::npos; };
        static const std::string base = "because 42, ss result error"; pad = msg.rfind(base, 0) == 0 ? msg.substr(base.size()) : "";
        if (o.is("threads")) return Out("ok", js(Ints{in_threads(o.i(1))}));
        std::ostringstream err; auto* was = std::cerr.rdbuf(err.rdbuf());
        std::string kind = "none", text;
        int site = (session < 0 ? 0 : session) * SITES + (isdigit((unsigned char)o.s(1)[0]) ? o.i(1) - 1 : 0);
        try {
            auto u = uses.find(o.name());
            if (u != uses.end()) u->second(o.i(1), o.i(2));
            else if (o.is("unreached")) unreached(o.i(1));
            else if (o.is("failmsg")) fail_msg(0);
            else if (o.is("notimpl")) not_implemented_here();
            else if (o.is("raise")) raise_it(o.s(1), o.i(2), 0);
            else { int c = 0; LOCALS
                if (o.is("notify")) HELPER_NOTIFY(MSG)
                else if (o.is("warn")) HELPER_WARN(MSG)
                else if (o.is("error")) HELPER_ERROR(MSG)
                else if (o.is("once") || o.is("nonce")) o1[site](o.is("once"));
                else if (o.is("deprecated") || o.is("ndeprecated")) o2[site](o.is("deprecated"));
                else if (o.is("both")) o3[site](true);
                else kind = "badop";
            }
        }
        catch (Own const& e) { kind = "own"; text = e.what(); }
        catch (std::runtime_error const& e) { kind = o.is("raise") ? "runtime" : "throw"; text = e.what(); }
        catch (std::logic_error const& e) { kind = "logic"; text = e.what(); }
        catch (...) { kind = "other"; }
        std::cerr.rdbuf(was);
        std::string written = err.str(); int n = 0; for (char ch : written) if (ch == '\n') ++n;
        bool message = o.is("notify") || o.is("warn") || o.is("error") || o.is("once") || o.is("nonce") || o.is("deprecated") || o.is("ndeprecated") || o.is("both");
        if (message) {
            if (kind != "none") return Out("threw:" + kind);
            if (!written.empty() && written.back() != '\n') return Out("unfinished line");
            if (!std::cerr.good()) return Out("stream broken");
            if (!(o.is("notify") || o.is("warn") || o.is("error"))) lines += n;
            return Out("ok", js(Ints{n, has(written, msg), says}));
        }
        if (!written.empty()) return Out("wrote");
        if (o.is("equal") && kind == "throw") return Out(kind, js(Ints{evals, says, has(text, cond + "==" + msg), has(text, o.i(1) == 3 ? "0 != 1" : "2 != 1")}));   // both sides as written; their values
        return Out(kind, js(Ints{evals, says, kind == "none" || (kind == "own" && !o.is("raise")) ? 0 : has(text, cond), kind == "none" || (kind == "own" && !o.is("raise")) ? 0 : has(text, msg)}));
    }, [&] { return obj({{"n", js(lines)}}); });
}
