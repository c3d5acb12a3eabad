// Drives dynamic_handle_extract, dynamic_pointer_extract and dynamic_handle_cast on a small class hierarchy.
#include <cstdlib>
#include <iostream>
#include <memory>
#include <optional>
#include "handle.hpp"
#include "common.hpp"
using namespace Helper;
static long bad = 0;
// the interface is writable, or (VERIF_BARE) is not: then only an object of type P is
#ifdef VERIF_BARE
struct I { virtual ~I() { }
#else
struct I : WritableInterface {
    ostream& _write(ostream& os) const override { return os << kind() << get(); }
#endif
    virtual I* clone() const = 0;
    virtual int get() const = 0; virtual void set(int) = 0; virtual std::string kind() const = 0; virtual size_t size() const = 0;
};
#ifdef VERIF_BARE
struct B : WritableInterface { ostream& _write(ostream& os) const override { return os << "a B"; } };
#else
struct B { };
#endif
struct J { virtual ~J() { } virtual int get() const = 0; };
struct V { int x = 0; int get() const { return x; } };
struct U : V { };
#define BODY(T) T* clone() const override { return new T(*this); } std::string kind() const override { return #T; } size_t size() const override { return sizeof(T); }
struct P : I, B { int x = 0; BODY(P) int get() const override { return x; } void set(int y) override { x = y; } };
struct Q : P { BODY(Q) };
struct R : I { int x = 0; BODY(R) int get() const override { return x; } void set(int y) override { x = y; } };
struct M : I, J { int x = 0; BODY(M) int get() const override { return x; } void set(int y) override { x = y; } };
struct WV : Wrapper<V, I> { WV() : Wrapper<V, I>(V()) { } BODY(WV) int get() const override { return V::x; } void set(int y) override { V::x = y; } };
struct WU : Wrapper<U, I> { WU() : Wrapper<U, I>(U()) { } BODY(WU) int get() const override { return U::x; } void set(int y) override { U::x = y; } };
struct N : V { };
struct X : Wrapper<V, I>, N {       // two V parts; the wrapped one holds the value
    X() : Wrapper<V, I>(V()) { set(0); } BODY(X)
    int get() const override { return Wrapper<V, I>::x; } void set(int y) override { Wrapper<V, I>::x = y; N::x = y + 100; } };
using H = Handle<I>;
struct D : Handle<I> { using Handle<I>::Handle; D(Handle<I> const& h) : Handle<I>(h) { } };   // a class derived from handle
struct Diag { std::ostringstream s; std::streambuf* was; Diag() : was(std::cerr.rdbuf(s.rdbuf())) { } ~Diag() { std::cerr.rdbuf(was); } int any() { if (!std::cerr.good()) { std::cerr.clear(); ++bad; } return s.str().empty() ? 0 : 1; } };
// is the address inside the object?
static bool within(const void* p, I const& o) { const char* b = static_cast<const char*>(dynamic_cast<const void*>(&o)); const char* q = static_cast<const char*>(p); return b <= q && q < b + o.size(); }

template<class T> Out extract(std::string const& how, H& h) {
    H const& k = h; const I* before = k.const_pointer(); Diag d;
    try {
        const T* t;
        if (how == "xc") t = &dynamic_handle_extract<T>(k);
        else if (how == "xm") { T& r = dynamic_handle_extract<T>(h); t = &r; }
        else { Handle<const I> c(k); t = &dynamic_handle_extract<T>(c); }
        if (!within(t, *k.const_pointer())) return Out("elsewhere");
        return Out("ok", js(Ints{t->get(), d.any()}));
    } catch (std::bad_cast const&) { if (k.const_pointer() != before) return Out("changed"); return Out("badcast", js(Ints{d.any()})); }
}
template<class T> Out pointer(std::optional<H> const& h) {
    std::shared_ptr<const I> p; if (h) p = h->managed_const_pointer(); Diag d;
    auto q = dynamic_pointer_extract<T>(p);
    if (!q) return Out("null");
    if (!p || !within(q.get(), *p)) return Out("elsewhere");
    return Out("ok", js(Ints{q->get()}));
}
template<class T> Out cast(std::string const& how, H& h, int y) {
    H const& k = h; const I* before = k.const_pointer(); Diag d;
    try {
        if (how == "ch" || how == "cw") {
            Handle<T> c = dynamic_handle_cast<Handle<T>>(k); Handle<T> const& cc = c;
            if (!within(cc.const_pointer(), *k.const_pointer())) return Out("elsewhere");
            int x = cc.const_reference().get();
            if (how == "cw") {
                if constexpr (std::is_base_of_v<I, T>) { c.reference().set(y); return Out("ok", js(Ints{x, cc.reference().get()})); } }
            return Out("ok", js(Ints{x, d.any()}));
        } else if (how == "cc") {
            Handle<const I> s(k); Handle<const T> c = dynamic_handle_cast<Handle<const T>>(s);
            if (!within(c.const_pointer(), *k.const_pointer())) return Out("elsewhere");
            return Out("ok", js(Ints{c.const_reference().get(), d.any()}));
        } else {
            D s(k); Handle<const T> c = dynamic_handle_cast<Handle<const T>>(s);
            if (!within(c.const_pointer(), *k.const_pointer())) return Out("elsewhere");
            return Out("ok", js(Ints{c.const_reference().get(), d.any()}));
        }
    } catch (std::bad_cast const&) { if (k.const_pointer() != before) return Out("changed"); return Out("badcast", js(Ints{d.any()})); }
}
template<class F> Out with(std::string const& t, F f) {
    if (t == "P") return f((P*)0); if (t == "Q") return f((Q*)0); if (t == "R") return f((R*)0); if (t == "M") return f((M*)0);
    if (t == "J") return f((J*)0); if (t == "V") return f((V*)0); return f((U*)0);
}
template<class T> using Bare = std::remove_pointer_t<T>;
int main(int argc, char** argv) {
    int S = atoi(argv[3]); std::vector<std::optional<H>> h(S + 1);
    auto perform = [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { for (auto& x : h) x.reset(); return Out(); }
        if (o.is("xpnull")) return with(o.s(1), [&](auto* t) { return pointer<Bare<decltype(t)>>(std::nullopt); });
        auto& d = h[o.i(1)];
        if (o.is("mk")) { if (d) return Out("skip"); std::string const& k = o.s(2); std::shared_ptr<I> p;
            if (k == "P") p = std::make_shared<P>(); else if (k == "Q") p = std::make_shared<Q>(); else if (k == "R") p = std::make_shared<R>(); else if (k == "M") p = std::make_shared<M>();
            else if (k == "WV") p = std::make_shared<WV>(); else if (k == "WU") p = std::make_shared<WU>(); else p = std::make_shared<X>();
            p->set(o.i(3)); d.emplace(p); return Out(); }
        if (o.is("cp")) { auto& f = h[o.i(2)]; if (d || !f) return Out("skip"); H const& k = *f; d.emplace(k); return Out(); }
        if (!d) return Out("skip");
        if (o.is("del")) { d.reset(); return Out(); }
        if (o.is("set")) { d->reference().set(o.i(2)); return Out(); }
        if (o.is("xp")) return with(o.s(2), [&](auto* t) { return pointer<Bare<decltype(t)>>(d); });
        if (o.name()[0] == 'x') return with(o.s(2), [&](auto* t) { return extract<Bare<decltype(t)>>(o.name(), *d); });
        if (o.name()[0] == 'c') return with(o.s(2), [&](auto* t) { return cast<Bare<decltype(t)>>(o.name(), *d, o.is("cw") ? o.i(3) : 0); });
        return Out("badop");
    };
    return run_scripts(argc, argv, perform, [&] {
        std::vector<std::string> k; Ints v;
        for (int s = 1; s <= S; ++s) { if (h[s]) { H const& c = *h[s]; k.push_back(c.const_reference().kind()); v.push_back(c.const_reference().get()); } else { k.push_back("-"); v.push_back(0); } }
        return obj({{"k", js(k)}, {"v", js(v)}, {"bad", js(bad)}}); });
}
