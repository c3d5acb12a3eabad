// Common part of all conformance drivers.
//
// A driver reads scripts (behaviours generated from the TLA+ specification by TLC), performs each
// operation on the real code in /repo, and after each operation writes one trace line
//     {"op": <the operation>, "out": {"s": <outcome>, "v": <result>}, "obs": <projected state>}
// which TLC then validates against the same specification. The driver holds no expectation of its own.
//
// Script format: one operation per line, fields separated by tabs; a field that starts with a digit,
// '-' or '[' is JSON (a number, or a possibly nested list), any other is a string. A session starts with
// the operation "new".
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unistd.h>
#include <signal.h>

// ---- allocation accounting: every operator new/delete of the process goes through here -------------
namespace memacct {
inline long live_blocks = 0;      // blocks currently allocated
inline long live_bytes = 0;
inline long counted = 0;          // of those, allocated while a Counted object was active
inline bool counting = false;
constexpr long LIMIT = 256L * 1024 * 1024;  // runaway growth ends the driver (the model has no such behaviour)
struct Header { size_t n; size_t magic; };
constexpr size_t MAGIC = 0x5afe5afe5afe5afeULL;
inline void* get(size_t n) {
    if (n >> 40) throw std::bad_alloc();   // what no memory holds
    void* p = std::malloc(n + sizeof(Header));
    if (!p) _exit(97);
    Header* h = static_cast<Header*>(p);
    h->n = n; h->magic = MAGIC + (counting ? 1 : 0); if (counting) ++counted;
    ++live_blocks; live_bytes += long(n);
    if (live_bytes > LIMIT) { static const char m[] = "driver: memory limit\n"; (void)!write(2, m, sizeof m - 1); _exit(98); }
    std::memset(h + 1, 0xA5, n);
    return h + 1;
}
inline void put(void* p) {
    if (!p) return;
    Header* h = static_cast<Header*>(p) - 1;
    if (h->magic == MAGIC + 1) --counted;
    else if (h->magic != MAGIC) { static const char m[] = "driver: bad delete\n"; (void)!write(2, m, sizeof m - 1); _exit(99); }
    h->magic = 0;
    --live_blocks; live_bytes -= long(h->n);
    std::memset(h + 1, 0x5A, h->n);
    std::free(h);
}
}
struct Counted { bool was = memacct::counting; Counted() { memacct::counting = true; } ~Counted() { memacct::counting = was; } };
struct Uncounted { bool was = memacct::counting; Uncounted() { memacct::counting = false; } ~Uncounted() { memacct::counting = was; } };
#ifndef VERIF_NO_ACCT
void* operator new(size_t n) { return memacct::get(n); }
void* operator new[](size_t n) { return memacct::get(n); }
void operator delete(void* p) noexcept { memacct::put(p); }
void operator delete[](void* p) noexcept { memacct::put(p); }
void operator delete(void* p, size_t) noexcept { memacct::put(p); }
void operator delete[](void* p, size_t) noexcept { memacct::put(p); }
#endif

// ---- an element type that knows whether it is alive and whose copies can be made to fail -----------
struct Fault : std::runtime_error { Fault() : std::runtime_error("injected fault") { } };
struct Tracked {
    static inline long live = 0;        // constructed and not yet destroyed
    static inline long bad = 0;         // operations on objects that are not alive
    static inline long armed = 0;       // 0: off; k: the k-th construction/assignment from now on throws
    static constexpr unsigned ALIVE = 0x600df00d, DEAD = 0xdeadbeef;
    unsigned magic; int val;
    Tracked* self;
    static void step() { if (armed > 0 && --armed == 0) throw Fault(); }
    void chk() const { if (magic != ALIVE || self != this) ++bad; }
    void born() { magic = ALIVE; self = this; ++live; }
    Tracked() { step(); val = 0; born(); }
    Tracked(int v) { step(); val = v; born(); }
    Tracked(Tracked const& o) { o.chk(); step(); val = o.val; born(); }
    Tracked& operator=(Tracked const& o) { chk(); o.chk(); step(); val = o.val; return *this; }
    ~Tracked() { chk(); magic = DEAD; self = nullptr; val = -777; --live; }
    int get() const { chk(); return magic == ALIVE && self == this ? val : -999; }
    friend bool operator==(Tracked const& a, Tracked const& b) { return a.get() == b.get(); }
    friend bool operator!=(Tracked const& a, Tracked const& b) { return a.get() != b.get(); }
    friend bool operator<(Tracked const& a, Tracked const& b) { return a.get() < b.get(); }
    friend std::ostream& operator<<(std::ostream& os, Tracked const& a) { return os << a.get(); }
};

// ---- JSON values -----------------------------------------------------------------------------------
using Ints = std::vector<int>;
inline std::string js(int x) { return std::to_string(x); }
inline std::string js(long x) { return std::to_string(x); }
inline std::string js(unsigned long x) { return std::to_string(x); }
inline std::string js(unsigned x) { return std::to_string(x); }
inline std::string js(bool x) { return x ? "1" : "0"; }
inline std::string js(std::string const& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}
inline std::string js(const char* s) { return js(std::string(s)); }
template<class T> std::string js(std::vector<T> const& v) {
    std::string r = "["; bool first = true;
    for (size_t i = 0; i != v.size(); ++i) { if (!first) r += ","; first = false; r += js(v[i]); }
    return r + "]";
}
// an object from alternating key and already encoded value
inline std::string obj(std::initializer_list<std::pair<const char*, std::string>> kv) {
    std::string r = "{"; bool first = true;
    for (auto& p : kv) { if (!first) r += ","; first = false; r += js(p.first) + ":" + p.second; }
    return r + "}";
}
inline std::string arr(std::vector<std::string> const& encoded) {
    std::string r = "["; bool first = true;
    for (auto& p : encoded) { if (!first) r += ","; first = false; r += p; }
    return r + "]";
}
// text as a list of character codes: immune to encoding questions
inline std::string codes(std::string const& s) { Ints v; for (unsigned char c : s) v.push_back(c); return js(v); }

// ---- one operation of a script ---------------------------------------------------------------------
struct Op {
    std::vector<std::string> f;
    std::string const& name() const { return f[0]; }
    bool is(const char* s) const { return f[0] == s; }
    int i(size_t k) const { return std::stoi(f.at(k)); }
    std::string const& s(size_t k) const { return f.at(k); }
    Ints ints(size_t k) const {  // a flat list of integers
        Ints r; std::string const& t = f.at(k); size_t p = 1;
        while (p < t.size() && t[p] != ']') { char* e; r.push_back(int(std::strtol(t.c_str() + p, &e, 10))); if (e == t.c_str() + p) throw std::invalid_argument("ints"); p = size_t(e - t.c_str()); if (t[p] == ',') ++p; }
        return r;
    }
    std::vector<Ints> intss(size_t k) const {  // a list of lists of integers
        std::vector<Ints> r; std::string const& t = f.at(k); size_t p = 1;
        while (p < t.size() && t[p] != ']') {
            size_t e = t.find(']', p); Op o; o.f.push_back(t.substr(p, e - p + 1)); r.push_back(o.ints(0));
            p = e + 1; if (p < t.size() && t[p] == ',') ++p;
        }
        return r;
    }
    std::string text(size_t k) const { std::string r; for (int c : ints(k)) r += char(c); return r; }  // from character codes
    std::string json() const {
        std::vector<std::string> e;
        for (auto& x : f) e.push_back(!x.empty() && (isdigit((unsigned char)x[0]) || x[0] == '-' || x[0] == '[') ? x : js(x));
        return arr(e);
    }
};

struct Out {
    std::string s; std::string v;
    Out(std::string s_ = "ok", std::string v_ = "[]") : s(s_), v(v_) { }
};

[[noreturn]] inline void on_alarm(int) { static const char m[] = "driver: operation timed out\n"; (void)!write(2, m, sizeof m - 1); _exit(96); }

// Runs the scripts: perform() does one operation and returns its outcome, observe() the state (encoded).
// An exception that perform() does not turn into an outcome is recorded as the outcome "throw:other".
inline int run_scripts(int argc, char** argv, std::function<Out(Op const&)> perform, std::function<std::string()> observe) {
    if (argc < 3) { fprintf(stderr, "usage: driver SCRIPT TRACE\n"); return 2; }
    FILE* in = fopen(argv[1], "r"); FILE* tr = fopen(argv[2], "w");
    if (!in || !tr) { perror("driver"); return 2; }
    signal(SIGALRM, on_alarm);
    std::string last_obs = "[]";
    char* line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, in)) > 0) {
        while (n && (line[n - 1] == '\n' || line[n - 1] == '\r')) line[--n] = 0;
        if (!n) continue;
        std::string rec;
        {
            Op op; std::string cur;
            for (ssize_t k = 0; k <= n; ++k) if (k == n || line[k] == '\t') { op.f.push_back(cur); cur.clear(); } else cur += line[k];
            alarm(20);
            Out out;
            try { out = perform(op); }
            catch (std::exception const& e) { out = Out("throw:other"); }
            catch (...) { out = Out("throw:unknown"); }
            std::string obs;
            try { obs = observe(); }
            catch (...) { out.s = "obsfail"; obs = last_obs; }   // same shape, an outcome no action has
            last_obs = obs;
            alarm(0);
            rec = "{\"op\":" + op.json() + ",\"out\":{\"s\":" + js(out.s) + ",\"v\":" + out.v + "},\"obs\":" + obs + "}\n";
        }
        fwrite(rec.data(), 1, rec.size(), tr);
        fflush(tr);
    }
    free(line); fclose(in); fclose(tr);
    return 0;
}

#endif
