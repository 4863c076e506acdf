// Driver: ext_range_array_enum, ext_array_enum.
#include "vp.hpp"
#include <memory>
#include <limits>
#include "anifem++/interval/ext_array_enum.h"
using namespace Ani;
using vp::J;
struct Base {
    virtual ~Base() {}
    virtual J build(const J& op) = 0;
    virtual J query(const J& op) = 0;
    virtual J walk(const J& op) = 0;
    virtual J clear() = 0;
};
template <size_t M, class U> J arr(const std::array<U, M>& a) { J j = J::arr(); for (auto x : a) j.push((long long)x); return j; }
template <size_t M, class U> std::array<U, M> toArr(const J& j) { std::array<U, M> a; if (j.size() != M) std::_Exit(3); for (size_t i = 0; i < M; ++i) a[i] = (U)j[i].I(); return a; }
template <class En, unsigned N, class U> J walkOf(const En& e, const J& op) {
    auto it = e.begin(op["k"].I()); J pos = J::arr(), val = J::arr(), cmp = J::arr();
    auto rec = [&](const decltype(it)& x) { bool en = !(x != e.end()); pos.push(en ? (long long)e.size() : (long long)x->first); val.push(en ? J::arr() : arr<N + 1, U>(x->second)); };
    rec(it);
    int t = 0;
    for (auto& s : op["steps"].a) {
        auto prev = it; int d = s.I(); ++t;
        if (d == 1) { if (t % 2) ++it; else { auto o = it++; if (!(o == prev)) pos.push(-7); } }
        else if (d == -1) { if (t % 2) --it; else { auto o = it--; if (!(o == prev)) pos.push(-7); } }
        else if (d >= 0) { if (t % 2) it += d; else it = it + d; }
        else { if (t % 2) it -= (-d); else it = it - (-d); }
        rec(it);
        J c = J::arr(); c.push(prev == it).push(prev != it).push(prev < it).push(prev > it).push(prev <= it).push(prev >= it); cmp.push(c);
    }
    J r = J::obj(); r.set("pos", pos).set("val", val).set("cmp", cmp); return r;
}
template <class En, unsigned N, class U> J buildOf(const En& e) {
    J fwd = J::arr(), num = J::arr(), bwd = J::arr(), at = J::arr(), idx = J::arr();
    size_t sz = e.size(), g = 0;
    std::vector<std::array<U, N + 1>> els;
    for (auto it = e.begin(); it != e.end() && g <= sz + 2; ++it, ++g) { fwd.push(arr<N + 1, U>(it->second)); num.push((long long)(*it).first); els.push_back(it->second); }
    if (els.size() == sz) {
        if (sz) { auto it = e.end(); it = e.begin(sz - 1); for (g = 0; g < sz; ++g) { bwd.push(arr<N + 1, U>(it->second)); if (g + 1 < sz) --it; } }
        for (size_t k = 0; k < sz; ++k) at.push(arr<N + 1, U>(e[(decltype(e.size()))k]));
        for (auto& x : els) idx.push((long long)e[x]);
    }
    J r = J::obj(); r.set("size", sz).set("empty", e.empty()).set("fwd", fwd).set("num", num).set("bwd", bwd).set("at", at).set("idx", idx); return r;
}
template <unsigned N, class U, class G> struct Range : Base {
    typedef ext_range_array_enum<N, vec_range_func<U, G>, U, G> En;
    En e;
    J build(const J& op) override {
        std::vector<std::array<U, N>> ord; for (auto& x : op["ord"].a) ord.push_back(toArr<N, U>(x));
        std::vector<G> rg; for (auto& x : op["rg"].a) rg.push_back(x.I());
        if (op["via"].I() == 0) { e = En(ord, vec_range_func<U, G>(rg), op["n"].I(), op["m"].I()); e.setup(); }
        else { e.setBaseSet(ord).setRangedExtension(vec_range_func<U, G>(rg), op["n"].I(), op["m"].I()).setup(); }
        return buildOf<En, N, U>(e);
    }
    J query(const J& op) override {
        auto a = toArr<N + 1, U>(op["a"]); J r = J::obj();
        auto ix = [&](const typename En::iterator& it) { return it != e.end() ? (long long)it->first : (long long)e.size(); };
        auto f = e.find(a); auto lb = e.lower_bound(a), ub = e.upper_bound(a);
        r.set("contains", e.contains(a)).set("count", e.count(a)).set("find", ix(f)).set("findv", f != e.end() ? arr<N + 1, U>(f->second) : J::arr())
         .set("lb", ix(lb)).set("lbv", lb != e.end() ? arr<N + 1, U>(lb->second) : J::arr()).set("ub", ix(ub));
        return r;
    }
    J walk(const J& op) override { return walkOf<En, N, U>(e, op); }
    J clear() override { e.clear(); return (long long)e.size(); }
};
template <unsigned N, class U, class G, class Mem> struct Mapped : Base {
    static constexpr unsigned NV = 4;
    typedef ext_array_enum<N, NV, vec_range_func<U, G>, U, G, Mem> En;
    typedef interval_enum<Mem> IE;
    std::unique_ptr<En> e; std::vector<std::vector<int>> store;
    static void put(interval_own_memory<int, int>& m, std::vector<int>& s) { for (size_t i = 0; i < s.size(); i += 2) m.m_dat.push_back({s[i], s[i + 1]}); }
    static void put(interval_external_memory<int>& m, std::vector<int>& s) { m.m_dat_st = s.data(); m.m_dat_end = s.data() + s.size(); }
    J build(const J& op) override {
        std::vector<std::array<U, N>> ord; for (auto& x : op["ord"].a) ord.push_back(toArr<N, U>(x));
        std::vector<G> rg; for (auto& x : op["rg"].a) rg.push_back(x.I());
        ext_range_array_enum<N, vec_range_func<U, G>, U, G> b(ord, vec_range_func<U, G>(rg), op["n"].I(), op["m"].I()); b.setup();
        std::array<IE, NV> ie; store.assign(NV, {});
        for (unsigned v = 0; v < NV; ++v) {
            auto vals = op["maps"][(size_t)v].ints(); auto& s = store[v];
            for (size_t i = 0; i < vals.size(); ++i) if (i == 0 || vals[i] != vals[i - 1] + 1) { s.push_back(i); s.push_back(vals[i]); }
            if (!vals.empty()) { s.push_back(vals.size()); s.push_back(vals.back() + 1); }
            Mem m; put(m, s); ie[v] = IE(m);
        }
        e.reset(new En(b, ie));
        return buildOf<En, N, U>(*e);
    }
    J query(const J& op) override {
        auto a = toArr<N + 1, U>(op["a"]); J r = J::obj();
        auto f = e->find(a);
        r.set("contains", e->contains(a)).set("count", e->count(a)).set("find", f != e->end() ? (long long)f->first : (long long)e->size()).set("findv", f != e->end() ? arr<N + 1, U>(f->second) : J::arr());
        return r;
    }
    J walk(const J& op) override { return walkOf<En, N, U>(*e, op); }
    J clear() override { e->clear(); return (long long)e->size(); }
};
static std::unique_ptr<Base> make(int N, const std::string& ty) {
    Base* b = nullptr;
#ifndef MAPPED
#define M(n) if (N == n) { \
    if (ty == "uu") b = new Range<n, unsigned, unsigned>(); if (ty == "il") b = new Range<n, unsigned long, long>(); }
#else
#define M(n) if (N == n) { \
    if (ty == "mo") b = new Mapped<n, unsigned, unsigned, interval_own_memory<int, int>>(); if (ty == "mx") b = new Mapped<n, size_t, size_t, interval_external_memory<int>>(); }
#endif
    M(1) M(2) M(3) M(4)
    if (!b) std::_Exit(3);
    return std::unique_ptr<Base>(b);
}
int main(int argc, char** argv) {
    std::unique_ptr<Base> b;
    return vp::run(argc, argv, [&](const J& op) -> J {
        const std::string& o = op["op"].S();
        if (o == "case") { b.reset(); return J(); }
        if (o == "enum") { b = make(op["N"].I(), op["ty"].S()); return b->build(op); }
        if (o == "q") return b->query(op);
        if (o == "walk") return b->walk(op);
        if (o == "clear") return b->clear();
        std::_Exit(3);
    });
}
