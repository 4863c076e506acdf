// Driver: sparsity patterns of elemental matrices and the wrappers of elemental functions (inmost_interface/func_wrap.h).
#include "vp.hpp"
#include <memory>
#include <algorithm>
#include <ostream>
#include "anifem++/inmost_interface/func_wrap.h"
using namespace Ani;

template <class R> static vp::J ints(const std::vector<R>& v) { vp::J j = vp::J::arr(); for (auto x : v) j.push((long long)x); return j; }
// an array of exactly n elements on the heap: AddressSanitizer sees the first access outside
template <class R> struct Exact { std::unique_ptr<R[]> p; size_t n; explicit Exact(size_t n, R f = R(0)) : p(new R[n]), n(n) { std::fill(p.get(), p.get() + n, f); }
    std::vector<R> vec() const { return std::vector<R>(p.get(), p.get() + n); } R* get() { return p.get(); } };

template <class Int, class Real, class S> static vp::J patternOps(const vp::J& op, const S& sp) {
    long m = op["m"].I(), n = op["n"].I(), tot = m * n, nnz = op["row"].size(); 
    vp::J r = vp::J::obj();
    r.set("dims", vp::J::arr().push((long long)sp.m_sz1).push((long long)sp.m_sz2).push((long long)sp.m_nnz));
    Exact<Real> a(nnz), d(tot, Real(-7)), q(tot, Real(-7)), w(tot, Real(-7)), u(tot), b(nnz, Real(-7)), z(tot);
    for (long k = 0; k < nnz; ++k) a.get()[k] = w.get()[k] = Real(op["dat"][(int)k].I());
    for (long k = 0; k < tot; ++k) u.get()[k] = z.get()[k] = Real(op["full"][(int)k].I());
    Real fill = Real(op["fill"].I());
    sp.template densify<Real>((const Real*)a.get(), d.get(), fill);
    S mut = sp; mut.template densify<Real>(w.get());                   // in place, empty places become 0
    sp.template sparsify<Real>((const Real*)u.get(), b.get());
    sp.template sparsify<Real>(z.get());                                // in place
    r.set("full", ints(d.vec())).set("packed", ints(b.vec())).set("inplace", ints(w.vec()));
    vp::J zp = vp::J::arr(); for (long k = 0; k < nnz; ++k) zp.push((long long)z.get()[k]);
    r.set("inpacked", zp);
    Exact<Int> ci(n + 1, -9), ri(nnz, -9);
    sp.copyCSC(ci.get(), ri.get());
    r.set("col", ints(ci.vec())).set("row", ints(ri.vec()));
    std::vector<bool> vb(tot, true); sp.fillTemplate(vb.begin());
    Exact<char> cm(tot, 3); sp.fillTemplate(cm.get());
    Exact<int> im(tot, 3); sp.template fillTemplate<int*, int>(im.get());
    vp::J jb = vp::J::arr(); for (bool x : vb) jb.push(x ? 1 : 0);
    r.set("mask", jb).set("cmask", ints(cm.vec())).set("imask", ints(im.vec()));
    return r;
}
template <class Int, class Real> static vp::J pattern(const vp::J& op) {
    long m = op["m"].I(), n = op["n"].I(); const std::string& how = op["how"].S();
    std::vector<Int> col, row; for (int x : op["col"].ints()) col.push_back(x); for (int x : op["row"].ints()) row.push_back(x);
    Int nnz = row.size(); bool dense = op["dense"].B();
    MatSparsity<Int> own = dense ? MatSparsity<Int>::make_as_dense(m, n) : MatSparsity<Int>::make_as_sparse(nnz, m, n, col, row);
    if (how == "own") return patternOps<Int, Real>(op, own);
    if (how == "ofown") return patternOps<Int, Real>(op, own.getView());
    if (how == "view") return patternOps<Int, Real>(op, dense ? MatSparsityView<Int>::make_as_dense(m, n) : MatSparsityView<Int>::make_as_sparse(nnz, m, n, col.data(), row.data()));
    MatSparsityView<Int> v(dense ? MatSparsityView<Int>::DENSE : MatSparsityView<Int>::SPARSE_CSC, nnz, m, n, dense ? nullptr : col.data(), dense ? nullptr : row.data());
    if (how == "ctor") return patternOps<Int, Real>(op, v);
    // the result of an elemental function together with its pattern
    vp::J r = patternOps<Int, Real>(op, v);
    Exact<Real> a(nnz), d(m * n, Real(-7)); for (Int k = 0; k < nnz; ++k) a.get()[k] = Real(op["dat"][(int)k].I());
    SparsedData<Real, Int> sd(v, a.get()); sd.densify(d.get(), Real(op["fill"].I()));
    r.set("full", ints(d.vec()));
    return r;
}

// ---------------- wrappers
struct World { virtual ~World() {} virtual vp::J go(vp::J& op) = 0; };
template <ThreadPar::Type P, class R, class I> struct WorldT : World {
    using Dyn = MatFuncWrapDynamic<P, R, I>; using Hold = MatFuncWrapHolder<P, R, I>; using Base = MatFuncWrap<R, I>; using Mem = DynMem<R, I>;
    // which ids the user of a body holds
    struct Book { bool dm = false; std::vector<long> ids; std::vector<std::pair<long, long>> rng; };
    struct Slot { std::unique_ptr<Dyn> d; std::unique_ptr<Hold> h; std::shared_ptr<Book> b; };
    Slot s[5];
    std::map<Mem*, int> num;
    struct Seen { bool args = false; int w = -1, iw = -1, ud = -1, mem = -1, F = -1; } seen;
    int fresh = 0;
    int number(Mem* m) { if (!m) return 0; auto it = num.find(m); if (it != num.end()) return it->second; return num[m] = ++fresh; }

    static long value(long tag, const R** XY) { long v = tag; for (int k = 0; k < 4; ++k) for (int c = 0; c < 3; ++c) v += (3 * k + c + 1) * (long)XY[k][c]; return v; }
    // what the function was given is recorded; work memory is filled up to its announced size and takes part in the result
    struct Fun { WorldT* W; int tag, nr, nc, nw, niw, kind; };
    static void body(const Fun& f, const R** XY, R* A, R* F, R* w, I* iw, void* ud, Mem* mem, bool hw, bool hu, bool hm) {
        Seen& s = f.W->seen;
        if (hw) { s.w = w != nullptr; s.iw = iw != nullptr; }
        if (hu) s.ud = ud != nullptr;
        if (hm) s.mem = f.W->number(mem);
        long v = value(f.tag, XY);
        if (hw && w) { for (int k = 0; k < f.nw; ++k) w[k] = R(k + 1); for (int k = 0; k < f.nw; ++k) v += (long)w[k]; }
        if (hw && iw) { for (int k = 0; k < f.niw; ++k) iw[k] = I(k + 2); for (int k = 0; k < f.niw; ++k) v += (long)iw[k]; }
        if (hu && ud) { v += *(int*)ud; *(int*)ud += 1; }
        if (hm && mem) { auto part = mem->alloc(4, 3, 1); auto x = part.getPlainMemory(); for (int k = 0; k < 4; ++k) x.ddata[k] = R(k); for (int k = 0; k < 3; ++k) x.idata[k] = I(k); v += 1000; }
        if (A) for (int j = 0; j < f.nc; ++j) for (int i = 0; i < f.nr; ++i) A[i + f.nr * j] = R(v + 10 * i + 100 * j);
        if (F) for (int i = 0; i < f.nr; ++i) F[i] = R(v - i);
    }
    Dyn make(const vp::J& op) {
        const std::string& k = op["kind"].S(); const std::string& as = op["as"].S();
        Fun f{this, op["tag"].I(), op["nr"].I(), op["nc"].I(), op["nw"].I(), op["niw"].I(), 0};
        bool ud = op["ud"].B(), dm = op["dm"].B();
        using IO = typename Dyn::IOData;
        if (k == "raw") {
            std::vector<MatSparsity<I>> in, out;
            for (auto& p : op["in"].a) in.push_back(pat(p));
            for (auto& p : op["out"].a) out.push_back(pat(p));
            int rc = op["rc"].I(); std::vector<int> on; for (auto& p : op["out"].a) on.push_back(p["row"].size());
            std::vector<int> ins; for (auto& p : op["in"].a) ins.push_back(p["row"].size());
            return Dyn([f, rc, on, ins](const R** args, R** res, R* w, I* iw, void* u, Mem* mem) -> int {
                Seen& s = f.W->seen; s.w = w != nullptr; s.iw = iw != nullptr; s.ud = u != nullptr; s.mem = f.W->number(mem);
                long v = f.tag; for (size_t a = 0; a < ins.size(); ++a) for (int k = 0; k < ins[a]; ++k) v += (long(a) + 1) * (k + 1) * (long)args[a][k];
                for (size_t o = 0; o < on.size(); ++o) for (int k = 0; k < on[o]; ++k) res[o][k] = R(v + 10 * k + 100 * long(o));
                return rc; }, in, out, f.nw, f.niw, ud, dm);
        }
        if (as == "both") {
            if (k == "io") return GenerateElemMatRhs<P, R, I>([f](IO d) { body(f, d.args, d.res[0], d.res[1], d.w, d.iw, d.user_data, d.allocator, true, true, true); }, f.nr, f.nc, f.nw, f.niw, ud, dm);
            if (k == "plain") return GenerateElemMatRhs<P, R, I>([f](const R** XY, R* A, R* F) { body(f, XY, A, F, nullptr, nullptr, nullptr, nullptr, false, false, false); }, f.nr, f.nc);
            if (k == "ud") return GenerateElemMatRhs<P, R, I>([f](const R** XY, R* A, R* F, void* u) { body(f, XY, A, F, nullptr, nullptr, u, nullptr, false, true, false); }, f.nr, f.nc);
            if (k == "wiud") return GenerateElemMatRhs<P, R, I>([f](const R** XY, R* A, R* F, R* w, I* iw, void* u) { body(f, XY, A, F, w, iw, u, nullptr, true, true, false); }, f.nr, f.nc, f.nw, f.niw);
            if (k == "wi") return GenerateElemMatRhs<P, R, I>([f](const R** XY, R* A, R* F, R* w, I* iw) { body(f, XY, A, F, w, iw, nullptr, nullptr, true, false, false); }, f.nr, f.nc, f.nw, f.niw);
            return GenerateElemMatRhs<P, R, I>([f](const R** XY, R* A, R* F, R* w, I* iw, void* u, Mem* m) { body(f, XY, A, F, w, iw, u, m, true, true, true); }, f.nr, f.nc, f.nw, f.niw);
        }
        if (as == "mat") {
            if (k == "io") return GenerateElemMat<P, R, I>([f](IO d) { body(f, d.args, d.res[0], nullptr, d.w, d.iw, d.user_data, d.allocator, true, true, true); }, f.nr, f.nc, f.nw, f.niw, ud, dm);
            if (k == "plain") return GenerateElemMat<P, R, I>([f](const R** XY, R* A) { body(f, XY, A, nullptr, nullptr, nullptr, nullptr, nullptr, false, false, false); }, f.nr, f.nc);
            if (k == "ud") return GenerateElemMat<P, R, I>([f](const R** XY, R* A, void* u) { body(f, XY, A, nullptr, nullptr, nullptr, u, nullptr, false, true, false); }, f.nr, f.nc);
            if (k == "wiud") return GenerateElemMat<P, R, I>([f](const R** XY, R* A, R* w, I* iw, void* u) { body(f, XY, A, nullptr, w, iw, u, nullptr, true, true, false); }, f.nr, f.nc, f.nw, f.niw);
            if (k == "wi") return GenerateElemMat<P, R, I>([f](const R** XY, R* A, R* w, I* iw) { body(f, XY, A, nullptr, w, iw, nullptr, nullptr, true, false, false); }, f.nr, f.nc, f.nw, f.niw);
            return GenerateElemMat<P, R, I>([f](const R** XY, R* A, R* w, I* iw, void* u, Mem* m) { body(f, XY, A, nullptr, w, iw, u, m, true, true, true); }, f.nr, f.nc, f.nw, f.niw);
        }
        if (k == "io") return GenerateElemRhs<P, R, I>([f](IO d) { body(f, d.args, nullptr, d.res[0], d.w, d.iw, d.user_data, d.allocator, true, true, true); }, f.nr, f.nw, f.niw, ud, dm);
        if (k == "plain") return GenerateElemRhs<P, R, I>([f](const R** XY, R* F) { body(f, XY, nullptr, F, nullptr, nullptr, nullptr, nullptr, false, false, false); }, f.nr);
        if (k == "ud") return GenerateElemRhs<P, R, I>([f](const R** XY, R* F, void* u) { body(f, XY, nullptr, F, nullptr, nullptr, u, nullptr, false, true, false); }, f.nr);
        if (k == "wiud") return GenerateElemRhs<P, R, I>([f](const R** XY, R* F, R* w, I* iw, void* u) { body(f, XY, nullptr, F, w, iw, u, nullptr, true, true, false); }, f.nr, f.nw, f.niw);
        if (k == "wi") return GenerateElemRhs<P, R, I>([f](const R** XY, R* F, R* w, I* iw) { body(f, XY, nullptr, F, w, iw, nullptr, nullptr, true, false, false); }, f.nr, f.nw, f.niw);
        return GenerateElemRhs<P, R, I>([f](const R** XY, R* F, R* w, I* iw, void* u, Mem* m) { body(f, XY, nullptr, F, w, iw, u, m, true, true, true); }, f.nr, f.nw, f.niw);
    }
    static MatSparsity<I> pat(const vp::J& p) {
        std::vector<I> col, row; for (int x : p["col"].ints()) col.push_back(x); for (int x : p["row"].ints()) row.push_back(x);
        if (p["dense"].B()) return MatSparsity<I>::make_as_dense(p["m"].I(), p["n"].I());
        return MatSparsity<I>::make_as_sparse(I(row.size()), p["m"].I(), p["n"].I(), col, row);
    }
    static std::shared_ptr<Book> fork(Slot& x) { auto b = std::make_shared<Book>(); b->dm = x.b->dm; return b; }
    template <class F> auto on(Slot& x, F f) -> decltype(f(*x.d)) { if (x.d) return f(*x.d); return f(*x.h); }
    // both through the object itself and (for a value) through its base class
    vp::J shape(Slot& x) {
        vp::J r = vp::J::obj();
        auto put = [&](auto& o) {
            size_t a = 99, b = 99, w = 99, iw = 99; o.working_sizes(a, b, w, iw);
            r.set("valid", o.isValid() && bool(o)).set("sizes", vp::J::arr().push(a).push(b).push(w).push(iw)).set("ud", o.is_user_data_required());
            vp::J in = vp::J::arr(), out = vp::J::arr();
            auto one = [](auto sp, long nnz, long n1, long n2, const std::vector<I>& c, const std::vector<I>& rw) {
                vp::J e = vp::J::obj(); e.set("m", n1).set("n", n2).set("nnz", nnz).set("same", (long)sp.m_nnz == nnz && (long)sp.m_sz1 == n1 && (long)sp.m_sz2 == n2).set("col", ints(c)).set("row", ints(rw)); return e; };
            for (int k = 0; k < (int)o.n_in(); ++k) { std::vector<I> c(o.in_size2(k) + 1), w(std::max<long>(0, o.in_nnz(k))); o.in_csc(k, c.data(), w.data()); in.push(one(o.in_sparsity(k), o.in_nnz(k), o.in_size1(k), o.in_size2(k), c, w)); }
            for (int k = 0; k < (int)o.n_out(); ++k) { std::vector<I> c(o.out_size2(k) + 1), w(std::max<long>(0, o.out_nnz(k))); o.out_csc(k, c.data(), w.data()); out.push(one(o.out_sparsity(k), o.out_nnz(k), o.out_size1(k), o.out_size2(k), c, w)); }
            r.set("in", in).set("out", out);
            return 0; };
        if (x.d && x.d->m_sz_w % 2) { Base& b = *x.d; put(b); return r; }
        on(x, put);
        return r;
    }
    long pick(Slot& x, vp::J& op) {   // a held id, or one that means "none"
        long k = op["k"].I(), id = -1;
        if (k >= 0) { if (!x.b->dm) id = k; else if (!x.b->ids.empty()) id = x.b->ids[k % x.b->ids.size()]; }
        op.set("id", id); return id;
    }
    vp::J call(Slot& x, vp::J& op) {
        pick(x, op);
        seen = Seen();
        size_t na, nr, nw, niw; on(x, [&](auto& o) { o.working_sizes(na, nr, nw, niw); return 0; });
        std::vector<std::unique_ptr<Exact<R>>> ain, aout; std::vector<const R*> args; std::vector<R*> res;
        std::vector<int> v = op["x"].ints(); size_t at = 0;
        for (size_t k = 0; k < na; ++k) { size_t n = on(x, [&](auto& o) { return (size_t)o.in_nnz(k); }); ain.emplace_back(new Exact<R>(n)); for (size_t q = 0; q < n; ++q) ain.back()->get()[q] = R(v[at++ % v.size()]); args.push_back(ain.back()->get()); }
        for (size_t k = 0; k < nr; ++k) { size_t n = on(x, [&](auto& o) { return (size_t)o.out_nnz(k); }); aout.emplace_back(new Exact<R>(n, R(-99))); res.push_back(aout.back()->get()); }
        Exact<R> w(nw); Exact<I> iw(niw); int ud = op["ud"].I();
        bool gw = op["gw"].B(), gu = op["gu"].B(); I id = op["id"].I();
        int rc;
        if (op["mem"].B()) { typename Base::Memory m; m.m_args = args.data(); m.m_res = res.data(); if (gw) m.m_w = w.get(), m.m_iw = iw.get(); if (gu) m.user_data = &ud; m.mem_id = id;
            if (x.d) { Base& b = *x.d; rc = b(m); } else rc = (*x.h)(m); }
        else rc = on(x, [&](auto& o) { return o(args.data(), res.data(), gw ? w.get() : nullptr, gw ? iw.get() : nullptr, gu ? (void*)&ud : nullptr, id); });
        vp::J r = vp::J::obj(), out = vp::J::arr();
        for (auto& a : aout) out.push(ints(a->vec()));
        r.set("rc", rc).set("out", out).set("w", seen.w).set("iw", seen.iw).set("gud", seen.ud).set("ud", ud).set("mem", seen.mem);
        return r;
    }
    vp::J go(vp::J& op) override {
        const std::string& o = op["op"].S(); vp::J r = vp::J::obj();
        Slot& x = s[op["s"].I()];
        if (o == "mk") {
            Dyn d = make(op); const std::string& k = op["kind"].S();
            auto nb = std::make_shared<Book>(); nb->dm = k == "full" || ((k == "raw" || k == "io") && op["dm"].B()); x.b = nb;
            if (op["hold"].I() == 1) { x.h.reset(new Hold(std::move(d))); x.d.reset(); }
            else if (op["hold"].I() == 2) { x.h.reset(new Hold(std::shared_ptr<Base>(new Dyn(std::move(d))))); x.d.reset(); }
            else if (op["hold"].I() == 3 && x.h) { *x.h = std::move(d); }
            else if (op["hold"].I() == 4 && x.h) { *x.h = std::shared_ptr<Base>(new Dyn(std::move(d))); }
            else if (op["hold"].I() == 5 && x.h) { const Dyn& c = d; *x.h = c; }
            else if (op["hold"].I() >= 3) { x.h.reset(new Hold(std::move(d))); x.d.reset(); }
            else { x.d.reset(new Dyn(std::move(d))); x.h.reset(); }
        } else if (o == "copy") { Slot& y = s[op["t"].I()]; y.d.reset(new Dyn(*x.d)); y.h.reset(); y.b = fork(x); }
        else if (o == "assign") { Slot& y = s[op["t"].I()]; *y.d = *x.d; y.b->dm = x.b->dm; }
        else if (o == "move") { Slot& y = s[op["t"].I()]; y.d.reset(new Dyn(std::move(*x.d))); y.h.reset(); x.d.reset(); y.b = x.b; x.b.reset(); }
        else if (o == "massign") { Slot& y = s[op["t"].I()]; *y.d = std::move(*x.d); x.d.reset(); y.b = x.b; x.b.reset(); }
        else if (o == "hold") { Slot& y = s[op["t"].I()]; Dyn c(*x.d); y.h.reset(new Hold(std::move(c))); y.d.reset(); y.b = fork(x); }
        else if (o == "share") { Slot& y = s[op["t"].I()]; if (y.h && op["asg"].B()) *y.h = *x.h; else { y.h.reset(new Hold(*x.h)); y.d.reset(); } y.b = x.b; }
        else if (o == "drop") { x.d.reset(); x.h.reset(); x.b.reset(); int left = 0; for (auto& q : s) left += q.d || q.h; r.set("left", left); return r; }
        else if (o == "empty") { if (op["hold"].B()) { Hold h; r.set("valid", h.isValid() || bool(h)); } else { Dyn d; r.set("valid", d.isValid() || bool(d)); } return r; }
        else if (o == "setup") { long id = on(x, [](auto& f) { return f.setup_and_alloc_memory(); }); if (x.b->dm) x.b->ids.push_back(id); r.set("id", id); return r; }
        else if (o == "range") {
            auto p = on(x, [&](auto& f) { return f.setup_and_alloc_memory_range(I(op["n"].I())); });
            if (x.b->dm) { for (long q = p.first; q < p.second; ++q) x.b->ids.push_back(q); x.b->rng.push_back({p.first, p.second}); }
            r.set("a", (long)p.first).set("b", (long)p.second); return r;
        } else if (o == "release") {
            long id = pick(x, op); if (id < 0) { op.set("op", "defrag"); on(x, [&](auto& f) { f.defragment_memory(-1); return 0; }); }
            else { on(x, [&](auto& f) { f.release_memory(I(id)); return 0; });
                auto& v = x.b->ids; v.erase(std::remove(v.begin(), v.end(), id), v.end());
                auto& g = x.b->rng; g.erase(std::remove_if(g.begin(), g.end(), [&](std::pair<long, long> p) { return p.first <= id && id < p.second; }), g.end()); }
        } else if (o == "relrange") {
            if (x.b->dm && x.b->rng.empty()) { op.set("op", "defrag"); op.set("id", -1); on(x, [&](auto& f) { f.defragment_memory(-1); return 0; }); }
            else { std::pair<long, long> p(-2, 0); if (x.b->dm) { p = x.b->rng.back(); x.b->rng.pop_back(); auto& v = x.b->ids; v.erase(std::remove_if(v.begin(), v.end(), [&](long q) { return p.first <= q && q < p.second; }), v.end()); }
                on(x, [&](auto& f) { f.release_memory_range(std::pair<I, I>(I(p.first), I(p.second))); return 0; }); op.set("a", p.first).set("b", p.second); }
        }
        else if (o == "relall") { on(x, [&](auto& f) { f.release_all_memory(); return 0; }); if (x.b->dm) x.b->ids.clear(), x.b->rng.clear(); }
        else if (o == "clear") { on(x, [&](auto& f) { f.clear_memory(); return 0; }); if (x.b->dm) x.b->ids.clear(), x.b->rng.clear(); }
        else if (o == "defrag") { pick(x, op); on(x, [&](auto& f) { f.defragment_memory(I(op["id"].I())); return 0; }); }
        else if (o == "call") return call(x, op);
        else std::_Exit(3);
        if (op.has("t")) r.set("dst", shape(s[op["t"].I()]));
        else if (x.d || x.h) r.set("dst", shape(x));
        return r;
    }
};
static std::unique_ptr<World> W;
int main(int argc, char** argv) {
    return vp::run(argc, argv, [](const vp::J& op) -> vp::J {
        const std::string& o = op["op"].S();
        if (o == "case") { W.reset(); return vp::J(); }
        vp::J e = op, r;
        if (o == "pattern") {
            const std::string& ty = op["ty"].S();
            r = ty == "ld" ? pattern<long, double>(op) : ty == "if" ? pattern<int, float>(op) : ty == "ii" ? pattern<int, int>(op) : pattern<short, long>(op);
        } else {
            if (!W) { const std::string& ty = op["ty"].S();
                if (ty == "nld") W.reset(new WorldT<ThreadPar::Type::NONE, double, long>); else if (ty == "nif") W.reset(new WorldT<ThreadPar::Type::NONE, float, int>); else W.reset(new WorldT<ThreadPar::Type::STD, double, int>); }
            r = W->go(e);
        }
        e.set("r", r);
        return e;
    });
}
