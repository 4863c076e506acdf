// Driver: DynMem (alloc / clear / destroy / move / defragment, also through the DynMemT adaptor).
#include "vp.hpp"
#include <memory>
#include <set>
#include "anifem++/fem/fem_memory.h"
using namespace Ani;
typedef DynMem<double, int> Pool;
typedef DynMem<float, short> PoolS;
struct H {
    Pool::MemPart p;          // at most one of the two is in use
    PoolS::MemPart s;
    bool live = false, small = false;
    int tag = 0;
};
static std::unique_ptr<Pool> pool;
static std::unique_ptr<DynMemT<float, short, double, int>> ad;
static std::map<int, H> hs;
static int tagc = 0;
template <class MP> void fill(MP& m, int tag) {
    auto x = m.getPlainMemoryX();
    for (size_t i = 0; i < x.dSize; ++i) x.ddata[i] = tag * 100 + i;
    for (size_t i = 0; i < x.iSize; ++i) x.idata[i] = tag * 100 + i;
    for (size_t i = 0; i < x.mSize; ++i) { x.mdata[i].data = nullptr; x.mdata[i].nRow = tag; x.mdata[i].nCol = i; x.mdata[i].size = tag + i; }
}
template <class MP> bool intact(MP& m, int tag) {
    typedef typename std::remove_reference<decltype(*m.getPlainMemoryX().ddata)>::type R;
    typedef typename std::remove_reference<decltype(*m.getPlainMemoryX().idata)>::type I;
    auto x = m.getPlainMemoryX();
    for (size_t i = 0; i < x.dSize; ++i) if (x.ddata[i] != R(tag * 100 + i)) return false;
    for (size_t i = 0; i < x.iSize; ++i) if (x.idata[i] != I(tag * 100 + i)) return false;
    for (size_t i = 0; i < x.mSize; ++i) if (x.mdata[i].nRow != (size_t)tag || x.mdata[i].nCol != i || x.mdata[i].size != tag + i) return false;
    return true;
}
static vp::J observe(bool thrown) {
    vp::J live = vp::J::arr(), bad = vp::J::arr();
    struct Rng { const char *a, *b; };
    std::vector<std::pair<int, std::array<Rng, 3>>> v;
    std::map<int, std::array<size_t, 3>> sz;
    auto add = [&](int h, auto x) {
        v.push_back({h, {Rng{(char*)x.ddata, (char*)(x.ddata + x.dSize)}, Rng{(char*)x.idata, (char*)(x.idata + x.iSize)}, Rng{(char*)x.mdata, (char*)(x.mdata + x.mSize)}}});
        sz[h] = {x.dSize, x.iSize, x.mSize};
    };
    for (auto& q : hs) if (q.second.live) {
        if (q.second.small) { add(q.first, q.second.s.getPlainMemoryX()); if (!intact(q.second.s, q.second.tag)) bad.push(q.first); }
        else { add(q.first, q.second.p.getPlainMemoryX()); if (!intact(q.second.p, q.second.tag)) bad.push(q.first); }
    }
    std::set<const char*> pts;
    for (auto& q : v) for (auto& r : q.second) { pts.insert(r.a); pts.insert(r.b); }
    std::map<const char*, int> rk; int k = 0;
    for (auto p : pts) rk[p] = k++;
    for (auto& q : v) {
        vp::J row = vp::J::arr(); row.push(q.first);
        for (auto z : sz[q.first]) row.push(z);
        for (auto& r : q.second) { row.push(rk[r.a]); row.push(rk[r.b]); }
        live.push(row);
    }
    size_t c[3] = {0, 0, 0};
    for (auto& ch : pool->m_chunks) { c[0] += ch.rdata.size(); c[1] += ch.idata.size(); c[2] += ch.mdata.size(); }
    vp::J r = vp::J::obj();
    r.set("live", live).set("bad", bad).set("cap", vp::J::arr().push(c[0]).push(c[1]).push(c[2])).set("thrown", thrown);
    return r;
}
int main(int argc, char** argv) {
    return vp::run(argc, argv, [](const vp::J& op) -> vp::J {
        const std::string& o = op["op"].S();
        if (o == "case") { hs.clear(); ad.reset(); pool.reset(new Pool()); ad.reset(new DynMemT<float, short, double, int>(makeAdaptor<float, short>(*pool))); tagc = 0; return vp::J(); }
        bool thrown = false;
        if (o == "alloc" || o == "talloc") {
            H& h = hs[op["h"].I()];
            if (h.live) { h.p.clear(); h.s.clear(); h.live = false; }
            auto s = op["s"].ints();
            h.small = (o == "talloc"); h.tag = ++tagc % 90 + 1; h.live = true;
            if (h.small) { h.s = ad->alloc(s[0], s[1], s[2]); fill(h.s, h.tag); }
            else { h.p = pool->alloc(s[0], s[1], s[2]); fill(h.p, h.tag); }
        } else if (o == "free") {
            H& h = hs[op["h"].I()];
            h.p.clear(); h.s.clear(); h.live = false;
        } else if (o == "destroy") {
            hs.erase(op["h"].I());
        } else if (o == "move") {
            H& a = hs[op["h"].I()]; H& b = hs[op["g"].I()];
            int how = tagc % 2;
            if (&a != &b) {
                if (how) { b.p = std::move(a.p); b.s = std::move(a.s); }
                else { Pool::MemPart t(std::move(a.p)); b.p = std::move(t); PoolS::MemPart t2(std::move(a.s)); b.s = std::move(t2); }
                b.live = a.live; b.small = a.small; b.tag = a.tag; a.live = false;
            } else { auto& x = a.p; a.p = std::move(x); auto& y = a.s; a.s = std::move(y); }
        } else if (o == "defrag") {
            try { pool->defragment(); } catch (const std::exception&) { thrown = true; }
        } else std::_Exit(3);
        return observe(thrown);
    });
}
