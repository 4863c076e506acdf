// Driver: interval_enum over own and external storage.
#include "vp.hpp"
#include <memory>
#include "anifem++/interval/interval_enum.h"
using namespace Ani;
using vp::J;
struct Base { virtual ~Base() {} virtual J act(const std::string& o, const J& op) = 0; };
template <class Mem> struct Impl : Base {
    typedef interval_enum<Mem> E;
    E e; std::vector<typename Mem::EnumInt> raw;
    void put(interval_own_memory<int, int>& m, const J& b) { for (auto& x : b.a) m.m_dat.push_back({x[0].I(), x[1].I()}); }
    void put(interval_own_memory<long, long>& m, const J& b) { for (auto& x : b.a) m.m_dat.push_back({x[0].I(), x[1].I()}); }
    template <class I> void put(interval_external_memory<I>& m, const J& b) { raw.clear(); for (auto& x : b.a) { raw.push_back(x[0].I()); raw.push_back(x[1].I()); } m.m_dat_st = raw.data(); m.m_dat_end = raw.data() + raw.size(); }
    typedef typename E::const_iterator It;
    J el(const It& it) { J j = J::arr(); if (it == e.end()) { j.push((long long)e.size()); return j; } auto v = *it; j.push((long long)it->first).push((long long)v.second); return j; }
    J act(const std::string& o, const J& op) override {
        J r = J::obj();
        if (o == "build") {
            Mem m; put(m, op["blocks"]); if (op["set"].B()) e.setMem(m); else e = E(m);
            J f = J::arr(), b = J::arr(); size_t g = 0;
            for (auto it = e.begin(); it != e.end() && g++ < 1000; ++it) f.push(el(it));
            if (!e.empty()) { auto it = e.end(); for (g = 0; g < e.size(); ++g) { if (g % 2) --it; else it--; b.push(el(it)); } }
            return r.set("size", e.size()).set("empty", e.empty()).set("fwd", f).set("bwd", b);
        }
        long k = op.has("k") ? op["k"].I() : 0;
        if (o == "left") return r.set("find", el(e.find_left(k))).set("contains", e.contains_left(k)).set("lb", el(e.lower_bound_left(k))).set("ub", el(e.upper_bound_left(k)));
        if (o == "right") return r.set("find", el(e.find_right(k))).set("contains", e.contains_right(k)).set("lb", el(e.lower_bound_right(k))).set("ub", el(e.upper_bound_right(k)));
        auto at = [&](int n) { It it = e.begin(); for (int i = 0; i < n; ++i) ++it; return it; };
        if (o == "cmp") { It a = at(op["a"].I()), b = at(op["b"].I()); J x = J::arr(); return x.push((long long)(a - b)).push(a == b).push(a != b).push(a < b).push(a > b).push(a <= b).push(a >= b); }
        if (o == "walk") { It a = at(op["a"].I()); J x = J::arr(); int t = 0; for (auto& s : op["steps"].a) { ++t; if (s.I() > 0) { if (t % 2) ++a; else a++; } else { if (t % 2) --a; else a--; } x.push(el(a)); } return x; }
        if (o == "clear") { e.clear(); return J::arr().push((long long)e.size()).push(e.empty()); }
        std::_Exit(3);
    }
};
int main(int argc, char** argv) {
    std::unique_ptr<Base> b;
    return vp::run(argc, argv, [&](const J& op) -> J {
        const std::string& o = op["op"].S();
        if (o == "case") { b.reset(); return J(); }
        if (o == "build") { auto& t = op["ty"].S();
            if (t == "oi") b.reset(new Impl<interval_own_memory<int, int>>()); else if (t == "ol") b.reset(new Impl<interval_own_memory<long, long>>());
            else if (t == "xi") b.reset(new Impl<interval_external_memory<int>>()); else b.reset(new Impl<interval_external_memory<long>>()); }
        return b->act(o, op);
    });
}
