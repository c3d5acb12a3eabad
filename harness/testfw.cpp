// Uses every macro of test.hpp, with values and exceptions from the script.
#include <algorithm>
#include <limits>
#include <sstream>
#include <vector>
#include "metaprogramming.hpp"
#include "test.hpp"
#include "common.hpp"
struct MyError : std::runtime_error { MyError() : std::runtime_error("mine") { } };
struct Derived : MyError { };
static int runs = 0;
static int val(int a) { ++runs; if (a == -1) throw std::runtime_error("thrown"); if (a == -2) throw 17; return a; }
static double tenths(int a) { return val(a) / 10.0; }
static const int NONE = -3;
static double real(int a) { int v = a == NONE ? (++runs, a) : val(a); return v == NONE ? std::numeric_limits<double>::quiet_NaN() : 0.25 * v; }
static long long wide(int a) { return (long long)val(a) << 32; }
static std::string text(int a) { return std::string(a > 1 ? 70000 : 700, 'x') + char('a' + val(a)) + (a == 1 ? "\n" : ""); }
// a class of its own: != is not offered
struct Mine {
    int v; Mine(int w) : v(w) { } Mine(Mine const&) = default; operator bool() const { return v != 0; }
    friend bool operator==(Mine const& x, Mine const& y) { return x.v == y.v; } friend bool operator<(Mine const& x, Mine const& y) { return x.v < y.v; }
    friend bool operator<=(Mine const& x, Mine const& y) { return x.v <= y.v; } friend bool operator>(Mine const& x, Mine const& y) { return x.v > y.v; } friend bool operator>=(Mine const& x, Mine const& y) { return x.v >= y.v; }
    friend std::ostream& operator<<(std::ostream& os, Mine const& m) { return os << "mine" << m.v; }
};
static Mine mine(int a) { return Mine(val(a)); }
template<class T> bool same(T const& a, T const& b) { return a == b; }
template<class T> bool truth(T const& a) { return a != T(); }
static bool truth(Mine const& a) { return a.v != 0; }
static bool truth(std::string const& a) { return a[a.size() - (a.back() == '\n' ? 2 : 1)] != 'a'; }
template<class T> bool alike(T const& a, T const& b) { return a == b; }
using Helper::Same; using Helper::First;
template<class T> const char* class_name() { return "class"; }
template<class A, class B> struct IsEquivalent : std::is_same<A, B> { };
template<class A, class B> concept Alike = std::is_same_v<A, B>;
// construction throws at its first calls: n of them
static int throws_left = 0, throw_kind = 0;
struct Built {
    static void step() { ++runs; if (throws_left > 0) { --throws_left; if (throw_kind == -1) throw std::runtime_error("built"); throw 18; } }
    Built() { step(); }
    Built(int) { step(); }
    static Built make(int x) { return Built(x); }
    friend std::ostream& operator<<(std::ostream& os, Built const&) { return os << "built"; }
};
static Built source() { return Built(1); }
struct Subject { int n = 0; void test() { ++runs; } };
static int deleted = 0;
struct Held { ~Held() { ++deleted; } };
// reached is set by the statement that follows the macro
#define NEXT reached = true;
#define VALUES(M) { switch (f) { \
    case 1: M(val(a), val(b)) NEXT break; \
    case 2: { int ok = val(a), result = val(b); M(ok, result) NEXT break; } \
    case 3: M(val(a) | 0, val(b) & 15) NEXT break; \
    case 4: M(real(a), real(b)) NEXT break; \
    case 5: M(wide(a), wide(b)) NEXT break; \
    case 6: M(text(a), text(b)) NEXT break; \
    case 7: M(mine(a), mine(b)) NEXT break; } }
#define COMPARES(C) if (c == #C) { switch (f) { \
    case 1: HELPER_TEST_COMPARE(val(a), C, val(b)) NEXT break; \
    case 2: { int ok = val(a), result = val(b); HELPER_TEST_COMPARE(ok, C, result) NEXT break; } \
    case 3: HELPER_TEST_COMPARE(val(a) | 0, C, val(b) & 15) NEXT break; \
    case 4: HELPER_TEST_COMPARE(real(a), C, real(b)) NEXT break; \
    case 5: HELPER_TEST_COMPARE(wide(a), C, wide(b)) NEXT break; \
    case 6: HELPER_TEST_COMPARE(text(a), C, text(b)) NEXT break; \
    case 7: HELPER_TEST_COMPARE(mine(a), C, mine(b)) NEXT break; } }
#define RESULTS(C) if (c == #C) { switch (f) { \
    case 1: HELPER_TEST_RESULT_COMPARE(int, val(a), C, val(b)) NEXT break; \
    case 2: { int ok = val(a), result = val(b); HELPER_TEST_RESULT_COMPARE(int, ok, C, result) NEXT break; } \
    case 3: HELPER_TEST_RESULT_COMPARE(int, val(a) | 0, C, val(b) & 15) NEXT break; \
    case 4: HELPER_TEST_RESULT_COMPARE(double, real(a), C, real(b)) NEXT break; \
    case 5: HELPER_TEST_RESULT_COMPARE(long long, wide(a), C, wide(b)) NEXT break; \
    case 6: HELPER_TEST_RESULT_COMPARE(std::string, text(a), C, text(b)) NEXT break; \
    case 7: HELPER_TEST_RESULT_COMPARE(Mine, val(a), C, mine(b)) NEXT break; } }
// a range that is walked by an iterator, as GRID_TREE_SUBPAVING_ITERATOR wants it
struct GridTreeSubpaving { using ConstIterator = std::vector<int>::const_iterator; std::vector<int> v; ConstIterator begin() const { return v.begin(); } ConstIterator end() const { return v.end(); } };
// a statement with failing checks that then throws
static void troubled(int n, int x) {
    ++runs; std::string inner = "inner";
    for (int i = 0; i < n; ++i) { if (i % 2) { HELPER_TEST_EQUAL(i, -1) } else { HELPER_TEST_ASSERT(inner.empty()) } }
    HELPER_TEST_ASSERT(!inner.empty())
    if (x == 1) throw MyError(); if (x == 2) throw std::runtime_error("wrong"); if (x == 3) throw 19;
}
struct Troubled { int n, x; void test() { troubled(n, x); } };
static std::string perform_macro(Op const& o, bool& reached) {
    std::string const& m = o.name();
    int f = o.f.size() > 1 && (isdigit((unsigned char)o.s(1)[0]) || o.s(1)[0] == '-') ? o.i(1) : 0, a = o.f.size() > 2 ? o.i(2) : 0, b = o.f.size() > 3 ? o.i(3) : 0;
    std::string c = o.f.size() > 4 ? o.s(4) : "";
    if (m == "check") VALUES(HELPER_TEST_CHECK)
    else if (m == "checkwarn") VALUES(HELPER_TEST_CHECK_WARN)
    else if (m == "same") VALUES(HELPER_TEST_SAME)
    else if (m == "sameas") VALUES(HELPER_TEST_SAME_AS)
    else if (m == "equal") VALUES(HELPER_TEST_EQUAL)
    else if (m == "equals") VALUES(HELPER_TEST_EQUALS)
    else if (m == "notequal") VALUES(HELPER_TEST_NOT_EQUAL)
    else if (m == "less") VALUES(HELPER_TEST_LESS)
    else if (m == "binary") { switch (f) {
        case 1: HELPER_TEST_BINARY_PREDICATE(alike, val(a), val(b)) NEXT break;
        case 2: { int ok = val(a), result = val(b); HELPER_TEST_BINARY_PREDICATE(alike, ok, result) NEXT break; }
        case 3: HELPER_TEST_BINARY_PREDICATE(alike, val(a) | 0, val(b) & 15) NEXT break;
        case 4: HELPER_TEST_BINARY_PREDICATE(alike, real(a), real(b)) NEXT break;
        case 5: HELPER_TEST_BINARY_PREDICATE(alike, wide(a), wide(b)) NEXT break;
        case 6: HELPER_TEST_BINARY_PREDICATE(alike, text(a), text(b)) NEXT break;
        case 7: HELPER_TEST_BINARY_PREDICATE(alike, mine(a), mine(b)) NEXT break; } }
    else if (m == "unary") { switch (f) {
        case 1: HELPER_TEST_UNARY_PREDICATE(truth, val(a)) NEXT break;
        case 2: { int ok = val(a); HELPER_TEST_UNARY_PREDICATE(truth, ok) NEXT break; }
        case 3: HELPER_TEST_UNARY_PREDICATE(truth, val(a) | 0) NEXT break;
        case 4: HELPER_TEST_UNARY_PREDICATE(truth, real(a)) NEXT break;
        case 5: HELPER_TEST_UNARY_PREDICATE(truth, wide(a)) NEXT break;
        case 6: HELPER_TEST_UNARY_PREDICATE(truth, text(a)) NEXT break;
        case 7: HELPER_TEST_UNARY_PREDICATE(truth, mine(a)) NEXT break; } }
    else if (m == "assert") { switch (f) {
        case 1: HELPER_TEST_ASSERT(val(a)) NEXT break;
        case 2: { int result = val(a); HELPER_TEST_ASSERT(result) NEXT break; }
        case 3: HELPER_TEST_ASSERT(val(a) || false) NEXT break;
        case 4: HELPER_TEST_ASSERT(real(a)) NEXT break;
        case 5: HELPER_TEST_ASSERT(wide(a)) NEXT break;
        case 6: { int at = a; HELPER_TEST_ASSERT(val(a) ? &at : nullptr) NEXT break; }
        case 7: HELPER_TEST_ASSERT(mine(a)) NEXT break; } }
    else if (m == "within") { int t = o.i(4); double tol = t / 10.0 + 0.001; switch (f) {
        case 1: HELPER_TEST_WITHIN(tenths(a), tenths(b), tol) NEXT break;
        case 2: { double error = tenths(a), ok = tenths(b), result = tol; HELPER_TEST_WITHIN(error, ok, result) NEXT break; }
        case 3: { double x = tenths(b) - 0.5; HELPER_TEST_WITHIN(false ? 1.0 : tenths(a), x + 0.5, true ? tol : 0.0) NEXT break; }
        case 4: HELPER_TEST_WITHIN(real(a), real(b), 0.25 * t) NEXT break;
        case 5: HELPER_TEST_WITHIN(wide(a), wide(b), (long long)t << 32) NEXT break; } }
    else if (m == "compare") { COMPARES(==) COMPARES(!=) COMPARES(<) COMPARES(<=) COMPARES(>) COMPARES(>=) }
    else if (m == "rescompare") { RESULTS(==) RESULTS(!=) RESULTS(<) RESULTS(<=) RESULTS(>) RESULTS(>=) }
    else if (m == "static") { if (a == b) { HELPER_TEST_STATIC_ASSERT(std::is_same<int, int>) NEXT } else { HELPER_TEST_STATIC_ASSERT(std::is_same<int, long>) NEXT } }
    else if (m == "concept") { if (a == b) { HELPER_TEST_CONCEPT(Alike<int, int>) NEXT } else { HELPER_TEST_CONCEPT(Alike<int, long>) NEXT } }
    else if (m == "sametype") { if (a == b) { HELPER_TEST_SAME_TYPE(int, int) NEXT } else { HELPER_TEST_SAME_TYPE(int, long) NEXT } }
    else if (m == "equivtype") { if (a == b) { HELPER_TEST_EQUIVALENT_TYPE(int, int) NEXT } else { HELPER_TEST_EQUIVALENT_TYPE(int, long) NEXT } }
    else if (m == "try") { if (f == 1) { HELPER_TEST_TRY(val(a)) NEXT } else { int result = 5, ok = 6; HELPER_TEST_TRY(result = ok + val(a)) NEXT } }
    else if (m == "evaluate") { if (f == 1) { HELPER_TEST_EVALUATE(val(a)) NEXT } else { int ok = 5; HELPER_TEST_EVALUATE(ok | val(a)) NEXT } }
    else if (m == "assign") { int result = 5; if (f == 1) { HELPER_TEST_ASSIGN(result, val(a)) NEXT } else { int ok = 5; HELPER_TEST_ASSIGN(ok, val(a) | result) NEXT } }
    else if (m == "call") { if (f == 1) { HELPER_TEST_CALL(val(a)) NEXT } else { int ok = a; HELPER_TEST_CALL((void)val(ok)) NEXT } }
    else if (m == "execute") { if (f == 1) { HELPER_TEST_EXECUTE(val(a)) NEXT } else { int ok = 0; HELPER_TEST_EXECUTE(ok = val(a)) NEXT (void)ok; } }
    else if (m == "print") { if (f == 1) { HELPER_TEST_PRINT(val(a)) NEXT } else { int ok = 5; HELPER_TEST_PRINT(ok | val(a)) NEXT } }
    else if (m == "throws") {
        switch (f) {
            case 1: HELPER_TEST_THROWS(++runs; throw MyError(), MyError) NEXT break;
            case 2: HELPER_TEST_THROWS(++runs; throw Derived(), MyError) NEXT break;
            case 3: HELPER_TEST_THROWS(++runs; throw std::runtime_error("wrong"), MyError) NEXT break;
            case 4: HELPER_TEST_THROWS(++runs; throw 19, MyError) NEXT break;
            default: HELPER_TEST_THROWS(++runs, MyError) NEXT break;
        }
    }
    else if (m == "fail") {
        switch (f) {
            case 1: HELPER_TEST_FAIL(++runs; throw MyError()) NEXT break;
            case 2: HELPER_TEST_FAIL(++runs; throw Derived()) NEXT break;
            case 3: HELPER_TEST_FAIL(++runs; throw std::runtime_error("wrong")) NEXT break;
            case 4: HELPER_TEST_FAIL(++runs; throw 19) NEXT break;
            default: HELPER_TEST_FAIL(++runs) NEXT break;
        }
    }
    else if (m == "skip") { HELPER_TEST_SKIP(val(-1)) NEXT }
    else if (m == "title") { HELPER_PRINT_TEST_CASE_TITLE("a title " << 1) NEXT }
    else if (m == "comment") { HELPER_PRINT_TEST_COMMENT("a comment " << 1) NEXT }
    else if (m == "warn") { HELPER_TEST_WARN("a warning " << 1) NEXT }
    else if (m == "notify") { HELPER_TEST_NOTIFY("a notification " << 1) NEXT }
    else if (m == "class") { if (o.s(1) == "Alpha") { HELPER_TEST_CLASS(Alpha, Subject()) NEXT } else { Subject s; HELPER_TEST_CLASS(Beta, s) NEXT } }
    else if (m == "nested") {
        std::string const& outer = o.s(1); int n = a, x = b;
        if (outer == "call") { HELPER_TEST_CALL(troubled(n, x)) NEXT }
        else if (outer == "try") { HELPER_TEST_TRY(troubled(n, x)) NEXT }
        else if (outer == "throws") { HELPER_TEST_THROWS(troubled(n, x), MyError) NEXT }
        else if (outer == "fail") { HELPER_TEST_FAIL(troubled(n, x)) NEXT }
        else if (outer == "execute") { HELPER_TEST_EXECUTE(troubled(n, x)) NEXT }
        else if (outer == "class") { Troubled t{n, x}; HELPER_TEST_CLASS(Nested, t) NEXT }
        else return "badop";
    }
    else if (m == "walk") {
        GridTreeSubpaving paving; for (int i = 0; i < a; ++i) paving.v.push_back(i);
        size_t want = size_t(b); std::vector<int> expected; for (int i = 0; i < b; ++i) expected.push_back(i + 1 == o.i(4) ? 77 : i); std::vector<int const*> pointers; for (int const& e : expected) pointers.push_back(&e);
        HELPER_TEST_GRID_TREE_SUBPAVING_ITERATOR(pointers, paving, want) NEXT
    }
    else if (m == "clean") {
        std::vector<Held*> v; int held = 0; for (int i = 0; i < f; ++i) { v.push_back(i % 3 == 1 ? nullptr : new Held); held += i % 3 != 1; }
        deleted = 0; HELPER_CLEAN_TEST_VECTOR(v) NEXT
        bool good = deleted == held && int(v.size()) == f; for (auto p : v) good = good && p == nullptr; if (!good) return "not clean";
    }
    else {
        throw_kind = a; throws_left = a < 0 ? b : 0;
        if (m == "declare") { HELPER_TEST_DECLARE(Built, result) NEXT }
        else if (m == "named") { HELPER_TEST_NAMED_CONSTRUCT(Built, result, make(3)) NEXT }
        else if (m == "assignconstruct") { HELPER_TEST_ASSIGN_CONSTRUCT(Built, ok, source()) NEXT }
        else if (m == "construct") { HELPER_TEST_CONSTRUCT(Built, ok, (3)) NEXT }
        else if (m == "defconstruct") { HELPER_TEST_DEFAULT_CONSTRUCT(Built, ok) NEXT }
        else return "badop";
    }
    return "";
}
// the check as written, without spaces
static std::string written(Op const& o) {
    static const char* L[] = {"", "val(a)", "ok", "val(a)|0", "real(a)", "wide(a)", "text(a)", "mine(a)"};
    static const char* R[] = {"", "val(b)", "result", "val(b)&15", "real(b)", "wide(b)", "text(b)", "mine(b)"};
    static const std::map<std::string, std::string> mid{{"check", "=="}, {"same", "==="}, {"sameas", "and"}, {"equal", "=="}, {"equals", "=="}, {"notequal", "!="}, {"less", "<"}};
    std::string const& m = o.name(); size_t f = o.f.size() > 1 && isdigit((unsigned char)o.s(1)[0]) ? size_t(o.i(1)) : 0;
    auto i = mid.find(m);
    if (i != mid.end()) return L[f] + i->second + R[f];
    if (m == "compare" || m == "rescompare") return (m == "rescompare" && f == 7 ? "val(a)" : L[f]) + o.s(4) + R[f];
    if (m == "binary") return std::string("alike(") + L[f] + "," + R[f] + ")";
    if (m == "unary") return std::string("truth(") + L[f] + ")";
    if (m == "assert") return f == 2 ? "result" : f == 3 ? "val(a)||false" : f == 6 ? "val(a)?&at:nullptr" : L[f];
    if (m == "within") return f == 1 ? "tenths(a)~tenths(b)" : f == 2 ? "error~ok" : f == 3 ? "false?1.0:tenths(a)~x+0.5" : std::string(L[f]) + "~" + R[f];
    return "";
}
int main(int argc, char** argv) {
    const std::set<std::string> statements{"try", "evaluate", "assign", "call", "execute", "print", "throws", "fail", "skip", "class", "nested"};
    return run_scripts(argc, argv, [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { HELPER_TEST_FAILURES = 0; HELPER_TEST_SKIPPED = 0; test_case_counter = 0; HELPER_CURRENT_TESTING_CLASS = "???"; return Out(); }
        std::ostringstream co, ce; auto* wo = std::cout.rdbuf(co.rdbuf()); auto* we = std::cerr.rdbuf(ce.rdbuf());
        bool reached = false; std::string problem, how; runs = 0; throws_left = 0;
        try { problem = perform_macro(o, reached); how = reached ? "next" : "lost"; }
        catch (...) { how = reached ? "next" : "escaped"; }
        bool sound = std::cout.good() && std::cerr.good();
        std::cout.rdbuf(wo); std::cerr.rdbuf(we); std::cout.clear(); std::cerr.clear();
        if (!problem.empty()) return Out(problem);
        if (!sound) return Out("stream broken");
        auto lines = [&](std::string const& p) { int n = 0; std::istringstream is(ce.str()); std::string l; while (std::getline(is, l)) if (l.rfind(p, 0) == 0) ++n; return n; };
        int named = 0; std::string want = written(o); std::istringstream is(ce.str()); std::string l;
        while (std::getline(is, l)) if (l.rfind("ERROR:", 0) == 0) {
            bool place = l.find("testfw.cpp:") != std::string::npos; l.erase(std::remove(l.begin(), l.end(), ' '), l.end());
            // a caught exception is told without the operands where the macro has no text for it
            named += place && (want.empty() || l.find(want) != std::string::npos); }
        return Out(how, js(Ints{lines("ERROR:"), lines("WARNING:"), lines("NOTIFICATION:"), co.str().find("ERROR") != std::string::npos, statements.count(o.name()) ? runs : 0, named}));
    }, [&] { return obj({{"f", js(HELPER_TEST_FAILURES)}, {"s", js(HELPER_TEST_SKIPPED)}, {"c", js(test_case_counter)}, {"class", js(HELPER_CURRENT_TESTING_CLASS)}}); });
}
