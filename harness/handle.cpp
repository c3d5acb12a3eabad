// Drives Handle<Shape>; objects count themselves and their copies, and copying can be made to fail.
#include <cstdlib>
#include <iostream>
#include <memory>
#include <optional>
#include "handle.hpp"
#include "common.hpp"
using namespace Helper;
static long live = 0, bad = 0, copies = 0; static int armed = 0;
struct CopyFault { };
struct Shape {
    unsigned magic = 0x600df00d; Shape* self = this;
    Shape() { ++live; }
    Shape(Shape const& o) { if (!o.ok()) ++bad; if (armed) { armed = 0; magic = 0; self = nullptr; throw CopyFault(); } ++copies; ++live; }
    Shape(Shape&& o) { if (!o.ok()) ++bad; ++live; }                    // moves never fail
    virtual ~Shape() { if (!ok()) ++bad; magic = 0; self = nullptr; --live; }
    bool ok() const { return magic == 0x600df00d && self == this; }
    virtual Shape* clone() const = 0;
    virtual Shape* _copy() const = 0;
    virtual Shape* _move() = 0;
    virtual int get() const = 0;
    virtual void set(int) = 0;
};
template<int N> struct Kind : Shape {
    int x; Kind(int x_) : x(x_) { }
    Kind(Kind const&) = default; Kind(Kind&&) = default;
    Shape* clone() const override { return new Kind(*this); }
    Shape* _copy() const override { return new Kind(*this); }
    Shape* _move() override { return new Kind(std::move(*this)); }
    int get() const override { return ok() ? x : -1; }
    void set(int y) override { if (ok()) x = y; else ++bad; }
};
struct Mid : Kind<3> { using Kind<3>::Kind; Mid(int x) : Kind<3>(x) { } };
using A = Kind<1>; using B = Kind<2>; using H = Handle<Shape>;
int main(int argc, char** argv) {
    int S = atoi(argv[3]);
    std::vector<std::optional<H>> h(S + 1);
    auto reset = [&] { for (auto& x : h) x.reset(); armed = 0; };
    auto perform = [&](Op const& o) -> Out {
        if (o.is("new") || o.is("end")) { reset(); if (o.is("end") && memacct::counted != 0) return Out("leak"); memacct::counted = 0; return Out(); }
        Counted c;
        if (o.is("arm")) { armed = 1; return Out(); }
        if (o.is("disarm")) { armed = 0; return Out(); }
        if (o.is("mk")) {
            std::string const& w = o.s(1); auto& d = h[o.i(2)]; int x = o.i(3); if (d) return Out("skip");
            try {
                if (w == "raw") d.emplace(static_cast<Shape*>(new A(x)));
                else if (w == "shptr") { std::shared_ptr<Shape> p = std::make_shared<B>(x); d.emplace(p); }
                else if (w == "ref") { A a(x); Shape const& r = a; d.emplace(r); }
                else if (w == "mref") { B b(x); Shape& r = b; d.emplace(std::move(r)); }
                else if (w == "der") d.emplace(A(x));
                else if (w == "derx") { B const b(x); d.emplace(b); }
                else if (w == "derived") { Handle<Mid> m(std::make_shared<Mid>(x)); d.emplace(H(m)); }   // from a handle of a derived class
                else { Handle<B> m = make_handle<B>(x); d.emplace(H(m)); }
            } catch (CopyFault const&) { return Out("throw"); }
            return Out();
        }
        if (o.is("mk2")) { auto &d = h[o.i(1)], &f = h[o.i(2)]; if (d || f || o.i(1) == o.i(2)) return Out("skip");
            std::shared_ptr<Shape> p = std::make_shared<A>(o.i(3)); d.emplace(p); f.emplace(p); return Out(); }
        if (o.is("del")) { auto& d = h[o.i(1)]; if (!d) return Out("skip"); d.reset(); return Out(); }
        if (o.is("cp") || o.is("mv")) { auto &d = h[o.i(1)], &f = h[o.i(2)]; if (d || !f) return Out("skip");
            if (o.is("cp")) { H const& from = *f; d.emplace(from); } else { d.emplace(std::move(*f)); f.reset(); } return Out(); }
        if (o.is("asg") || o.is("masg")) { auto &d = h[o.i(1)], &f = h[o.i(2)]; bool m = o.is("masg"); if (!d || !f || (m && o.i(1) == o.i(2))) return Out("skip");
            if (m) { *d = std::move(*f); f.reset(); } else { H const& from = *f; *d = from; } return Out(); }
        std::string const& w = o.s(1); auto& d = h[o.i(2)]; if (!d) return Out("skip");
        if (o.is("rd")) {
            H const& k = *d; H& n = *d; int x = -2; copies = 0;
            if (w == "cref") x = n.const_reference().get();
            else if (w == "ref") x = k.reference().get();
            else if (w == "cptr") x = n.const_pointer()->get();
            else if (w == "ptr") x = k.pointer()->get();
            else if (w == "rcptr") x = n.raw_const_pointer()->get();
            else if (w == "rptr") x = k.raw_pointer()->get();
            else if (w == "sref") x = k.ref().get();
            else if (w == "sptr") x = k.ptr()->get();
            else if (w == "mcptr") x = n.managed_const_pointer()->get();
            else if (w == "mptr") x = k.managed_pointer()->get();
            else { Shape const& r = n; x = r.get(); }
            Uncounted u; return Out("ok", js(std::vector<long>{x, copies}));
        }
        if (o.is("wr") || o.is("crowd")) {
            std::vector<H> many; if (o.is("crowd")) { int k = o.i(3); many.reserve(size_t(k)); for (int j = 0; j < k; ++j) many.push_back(*d); }
            H& n = *d; int x = -2, y = o.is("crowd") ? o.i(4) : o.i(3);
            auto upd = [&](Shape& r) { x = r.get(); r.set(y); };
            try {
                if (w == "ref") upd(n.reference());
                else if (w == "ptr") upd(*n.pointer());
                else if (w == "rptr") upd(*n.raw_pointer());
                else if (w == "sref") upd(n.ref());
                else if (w == "sptr") upd(*n.ptr());
                else upd(*n.managed_pointer());
            } catch (CopyFault const&) { return Out("throw"); }
            Ints r{x};
            if (!many.empty()) { r.push_back(many[0].const_reference().get()); for (H const& m : many) if (m.reference().get() != r[1]) r[1] = -3; }
            many.clear();
            Uncounted u; return Out("ok", js(r));
        }
        return Out("badop");
    };
    return run_scripts(argc, argv, perform, [&] {
        Ints g, v;
        for (int s = 1; s <= S; ++s) {
            int f = 0, x = 0;
            if (h[s]) { H const& k = *h[s]; x = k.const_reference().get(); for (f = 1; f != s; ++f) if (h[f] && h[f]->const_pointer() == k.const_pointer()) break; }
            g.push_back(f); v.push_back(x);
        }
        return obj({{"h", js(g)}, {"v", js(v)}, {"live", js(live)}, {"bad", js(bad)}}); });
}
