// Shared by the finite element drivers
#ifndef FEM_COMMON_HPP
#define FEM_COMMON_HPP
#include "vp.hpp"
#include "anifem++/fem/operators.h"
#include "anifem++/fem/operations/operations.h"
#include "anifem++/fem/operations/dyn_ops.h"
#include "anifem++/fem/spaces/spaces.h"
#include "anifem++/fem/fem_space.h"
#include <map>
#include <memory>

namespace femc {
using namespace Ani;
using vp::J;
static const long long PRIME = 46337;

inline FemSpace mkspace(const J& s) {
    const std::string& k = s["k"].S();
    if (k == "P0") return FemSpace{P0Space{}};
    if (k == "P1") return FemSpace{P1Space{}};
    if (k == "P2") return FemSpace{P2Space{}};
    if (k == "P3") return FemSpace{P3Space{}};
    if (k == "B2") return FemSpace{Bubble2Space{}};
    if (k == "B4") return FemSpace{Bubble4Space{}};
    if (k == "CR1") return FemSpace{CR1Space{}};
    if (k == "RT0") return FemSpace{RT0Space{}};
    if (k == "ND0") return FemSpace{ND0Space{}};
    if (k == "vec") return FemSpace(VectorFemSpace(s["n"].I(), mkspace(s["a"]).base()));
    std::vector<FemSpace> v;
    for (auto& x : s["a"].a) v.push_back(mkspace(x));
    if (k == "prod") return make_complex_raw(v);
    if (k == "union") return make_union_raw(v);
    std::_Exit(3);
}
inline OperatorType optype(const std::string& s) {
    return s == "IDEN" ? IDEN : s == "GRAD" ? GRAD : s == "DIV" ? DIV : s == "CURL" ? CURL : s == "DUDX" ? DUDX : s == "DUDY" ? DUDY
         : s == "DUDZ" ? DUDZ : (std::_Exit(3), IDEN);
}
// how: an operator which owns its space, a view on a space kept elsewhere, the same two initialized afterwards
inline std::shared_ptr<ApplyOpBase> mkop(const J& sp, const std::string& op, int how = 0) {
    static std::map<std::string, FemSpace> kept;
    if (how == 0) return std::make_shared<ApplyOpFromSpace>(mkspace(sp).getOP_own(optype(op)));
    if (how == 2) { ApplyOpFromSpace x; x.Init(optype(op), mkspace(sp)); return ApplyOp(x).m_invoker->Copy(); }
    std::string key = sp.str();
    auto it = kept.find(key);
    if (it == kept.end()) it = kept.emplace(key, mkspace(sp)).first;
    if (how == 1) return ApplyOp(it->second.getOP(optype(op))).m_invoker;
    ApplyOpFromSpaceView y;
    y.Init(optype(op), it->second.base().get());
    return y.Copy();
}
inline int how(const J& o) { return o.has("how") ? o["how"].I() : 0; }
// corners()[k][3*r+i]
inline std::vector<std::vector<double>> corners(const J& T) {
    std::vector<std::vector<double>> x(4);
    for (auto& t : T.a) for (int k = 0; k < 4; ++k) for (int i = 0; i < 3; ++i) x[k].push_back((double)t[k][i].i);
    return x;
}
inline Tetra<const double> tetra(const std::vector<std::vector<double>>& x) { return Tetra<const double>(x[0].data(), x[1].data(), x[2].data(), x[3].data()); }
inline ArrayView<> view(std::vector<double>& v) { return ArrayView<>(v.data(), v.size()); }
inline std::vector<double> bary(const J& o) {
    std::vector<double> r; double den = (double)o["den"].i;
    for (auto& p : o["pts"].a) for (int k = 0; k < 4; ++k) r.push_back(p[k].i / den);
    return r;
}
// cartesian coordinates of the points in the first tetrahedron
inline std::vector<double> points(const J& o) {
    std::vector<double> r; double den = (double)o["den"].i;
    for (auto& p : o["pts"].a) for (int i = 0; i < 3; ++i) { double s = 0; for (int k = 0; k < 4; ++k) s += p[k].i * (double)o["T"][0][k][i].i; r.push_back(s / den); }
    return r;
}
inline std::vector<double> weights(const J& o) { std::vector<double> r; for (auto& p : o["w"].a) r.push_back((double)p.i); return r; }
// degrees of freedom divided by the square roots of n2
inline std::vector<double> dofmat(const J& o, const ApplyOpBase& U) {
    std::vector<double> r;
    for (size_t t = 0; t < o["dofs"].size(); ++t) for (size_t i = 0; i < U.Nfa(); ++i) r.push_back((double)o["dofs"][t][i].i / std::sqrt((double)o["nU"][t][i].i));
    return r;
}

struct Tens {
    char t; bool per; std::vector<std::vector<std::vector<double>>> c; std::string alt; bool byTet; int calls = 0;
    Tens(const J& d, const J& a, bool bt) : byTet(bt) {
        t = d["t"].S()[0]; per = d["per"].B();
        for (auto& m : d["c"].a) { c.emplace_back(); for (auto& row : m.a) { c.back().emplace_back(); for (auto& x : row.a) c.back().back().push_back((double)x.i); } }
        for (auto& x : a.a) alt += x.S();
    }
    double val(const double* X, int i, int j, int iTet) const {
        double s = 0;
        for (size_t q = 0; q < c.size(); ++q) s += c[q][i][j] * (q == 0 ? 1. : X[q - 1]);
        return s * (per ? iTet + 1 : 1);
    }
    TensorType fill(const double* X, double* D, std::pair<std::size_t, std::size_t> dims, int iTet, char as) const {
        double sc = t == 'N' ? 1 : t == 'C' ? val(X, 0, 0, iTet) : 0;
        if (as == 'N') return TENSOR_NULL;
        if (as == 'C') { D[0] = sc; return TENSOR_SCALAR; }
        for (size_t i = 0; i < dims.first; ++i) for (size_t j = 0; j < dims.second; ++j)
            D[i + dims.first * j] = (t == 'N' || t == 'C') ? (i == j ? sc : 0.) : val(X, (int)i, (int)j, iTet);
        return as == 'S' ? TENSOR_SYMMETRIC : TENSOR_GENERAL;
    }
    char rep(int iTet) { if (alt.empty()) return t; return alt[(byTet ? iTet : calls++) % alt.size()]; }
};
struct OneFun {
    TensorType operator()(const std::array<double, 3>& X, double* D, std::pair<std::size_t, std::size_t> dims, void* ud, int iTet) const {
        Tens& t = *static_cast<Tens*>(ud);
        return t.fill(X.data(), D, dims, iTet, t.rep(iTet));
    }
};
static const OneFun tens{};
struct FusFun {
    TensorType operator()(ArrayView<> X, ArrayView<> D, TensorDims dims, void* ud, const AniMemory<>& mem) const {
        Tens& t = *static_cast<Tens*>(ud);
        TensorType r = TENSOR_NULL;
        for (size_t f = 0; f < (size_t)mem.f; ++f) for (size_t n = 0; n < (size_t)mem.q; ++n)
            r = t.fill(X.data + 3 * (n + mem.q * f), D.data + dims.first * dims.second * (n + mem.q * f), dims, (int)f, t.t);
        return r;
    }
};
static const FusFun tensf{};

struct Buf {      // buffers of exactly the required sizes
    std::vector<double> d; std::vector<int> i; std::vector<DenseMatrix<>> m;
    std::string cut;    // one entry of this kind less than required
    PlainMemoryX<> get(PlainMemoryX<> r) {
        if (cut == "i" && r.iSize) --r.iSize; else if (cut == "m" && r.mSize) --r.mSize; else if (cut == "d" && r.dSize) --r.dSize;
        d.assign(r.dSize, std::nan("")); i.assign(r.iSize, -12345); m.assign(r.mSize, DenseMatrix<>());
        r.ddata = d.data(); r.idata = i.data(); r.mdata = m.data();
        return r;
    }
};
inline DynMem<>& dynmem() { static DynMem<> m; return m; }

inline void extent(const J& o, size_t& nr, size_t& nc) { nr = o["ext"][0].I(); nc = o["ext"][1].I(); }
inline long long mulmod(long long a, long long b) { return (a * b) % PRIME; }
// x * S as a residue; ok is cleared when x * S is not whole
inline long long residue(double x, double S, bool& ok) {
    long double v = (long double)x * S;
    if (!(v < 1e12L && v > -1e12L)) { ok = false; return 0; }
    long long n = (long long)std::llround(v);
    if (fabsl(v - n) > 2e-3L) ok = false;
    long long r = n % PRIME;
    return r < 0 ? r + PRIME : r;
}
inline double scale(const J& o) { double s = 1; for (auto& x : o["S"].a) s *= (double)x.i; return s; }
// the entries divided by the square roots of nV (rows), nU (columns) and nM (measure) where they apply
inline J residues(const J& o, const DenseMatrix<>& A) {
    J r = J::obj(), v = J::arr();
    bool ok = true;
    double S = scale(o), top = 0, topx = 0;
    bool mat = o.has("spU");
    size_t nu = mat ? o["nU"][0].size() : 0;
    if (A.nRow * A.nCol > A.size) std::_Exit(97);
    for (size_t k = 0; k < A.nCol * A.nRow; ++k) topx = std::max(topx, std::isfinite(A.data[k]) ? std::fabs(A.data[k]) : 1e300);
    top = topx * S;
    // moderate numbers whose scaled values leave the range where a double still tells the whole numbers apart: not decided
    bool lost = topx < 1e7 && top > 2e10;
    for (size_t j = 0; j < A.nCol; ++j) for (size_t i = 0; i < A.nRow; ++i) {
        double x = A.data[i + A.nRow * j];
        if (lost) { v.push(J(-1LL)); continue; }
        if (mat) {
            size_t t = j / nu;
            if (t < o["nU"].size() && i < o["nV"][t].size()) {
                double n = (double)o["nU"][t][j % nu].i * (double)o["nV"][t][i].i;
                if (n != 1) x /= std::sqrt(n);
                if (o.has("nM")) x /= std::sqrt((double)o["nM"][t].i);
            }
        }
        v.push(J(residue(x, S, ok)));
    }
    r.set("nr", (int)A.nRow).set("nc", (int)A.nCol).set("x", ok).set("v", v);
    return r;
}
// the call requested by the op, with the traits TR and the operators given (or made of the spaces in the op)
template <class TR, class F> void runtime(const J& o, const F& f, Tens& td, DenseMatrix<>& A, Buf& B, std::shared_ptr<ApplyOpBase> U, std::shared_ptr<ApplyOpBase> V) {
    const std::string& w = o["what"].S();
    std::string m = o["mem"].S();
    bool dyn = m == "dyn" || m == "xdyn";
    auto xs = corners(o["T"]);
    int nt = (int)o["T"].size();
    auto XYZ = make_tetras(xs[0].data(), xs[1].data(), xs[2].data(), xs[3].data(), nt);
    DynMem<>& wm = dynmem();
    void* ud = &td;
    if (w == "applyL" || w == "applyX") {
        if (!U) U = mkop(o["sp"], o["opr"].S(), how(o));
        uint d1 = (uint)o["rows"].I();
        auto dofs = dofmat(o, *U);
        DenseMatrix<> dm(dofs.data(), U->Nfa(), nt);
        if (w == "applyL") {
            auto pl = bary(o);
            if (dyn) fem3DapplyL<TR>(XYZ, view(pl), dm, *U, d1, f, A, wm, ud);
            else fem3DapplyL<TR>(XYZ, view(pl), dm, *U, d1, f, A, B.get(fem3DapplyL_memory_requirements<TR>(d1, *U, pl.size() / 4, nt)), ud);
        } else {
            auto px = points(o);
            auto Tt = tetra(xs);
            ArrayView<const double> X(px.data(), px.size());
            if (dyn) fem3DapplyX<TR>(Tt, X, dm, *U, d1, f, A, wm, ud);
            else fem3DapplyX<TR>(Tt, X, dm, *U, d1, f, A, B.get(fem3DapplyX_memory_requirements<TR>(d1, *U, px.size() / 3, 1)), ud);
        }
        return;
    }
    if (!U) U = mkop(o["spU"], o["opU"].S(), how(o));
    if (!V) V = mkop(o["spV"], o["opV"].S(), how(o));
    int loc = o.has("loc") ? o["loc"].I() : 0, ord = o.has("order") ? o["order"].I() : 0;
    if (w == "tet") {
        if (dyn) fem3Dtet<TR>(XYZ, *U, *V, f, A, wm, ord, ud);
        else fem3Dtet<TR>(XYZ, *U, *V, f, A, B.get(fem3Dtet_memory_requirements<TR>(*U, *V, ord, nt)), ord, ud);
    } else if (w == "face") {
        if (dyn) fem3Dface<TR>(XYZ, loc, *U, *V, f, A, wm, ord, ud);
        else fem3Dface<TR>(XYZ, loc, *U, *V, f, A, B.get(fem3Dface_memory_requirements<TR>(*U, *V, ord, nt)), ord, ud);
    } else if (w == "faceN") {
        if (dyn) fem3DfaceN<TR>(XYZ, loc, *U, *V, f, A, wm, ord, ud);
        else fem3DfaceN<TR>(XYZ, loc, *U, *V, f, A, B.get(fem3DfaceN_memory_requirements<TR>(*U, *V, ord, nt)), ord, ud);
    } else if (w == "edge") {
        if (dyn) fem3Dedge<TR>(XYZ, loc, *U, *V, f, A, wm, ord, ud);
        else fem3Dedge<TR>(XYZ, loc, *U, *V, f, A, B.get(fem3Dedge_memory_requirements<TR>(*U, *V, ord, nt)), ord, ud);
    } else if (w == "node") {
        if (dyn) fem3Dnode<TR>(XYZ, loc, *U, *V, f, A, wm, ud);
        else fem3Dnode<TR>(XYZ, loc, *U, *V, f, A, B.get(fem3Dnode_memory_requirements<TR>(*U, *V, nt)), ud);
    } else if (w == "pntL") {
        auto pl = bary(o), wg = weights(o);
        if (dyn) fem3DpntL<TR>(XYZ, view(pl), view(wg), *U, *V, f, A, wm, ud);
        else fem3DpntL<TR>(XYZ, view(pl), view(wg), *U, *V, f, A, B.get(fem3DpntL_memory_requirements<TR>(*U, *V, pl.size() / 4, nt)), ud);
    } else if (w == "pntX") {
        auto px = points(o), wg = weights(o);
        auto Tt = tetra(xs);
        ArrayView<const double> X(px.data(), px.size());
        if (dyn) fem3DpntX<TR>(Tt, X, view(wg), *U, *V, f, A, wm, ud);
        else fem3DpntX<TR>(Tt, X, view(wg), *U, *V, f, A, B.get(fem3DpntX_memory_requirements<TR>(*U, *V, px.size() / 3)), ud);
    } else std::_Exit(3);
}
// evaluation without a tensor
inline void evaluate(const J& o, DenseMatrix<>& A, Buf& B, std::shared_ptr<ApplyOpBase> U) {
    bool dyn = o["mem"].S() == "dyn" || o["mem"].S() == "xdyn";
    auto xs = corners(o["T"]);
    int nt = (int)o["T"].size();
    if (!U) U = mkop(o["sp"], o["opr"].S(), how(o));
    auto dofs = dofmat(o, *U);
    DenseMatrix<> dm(dofs.data(), U->Nfa(), nt);
    if (o["what"].S() == "applyL") {
        auto pl = bary(o);
        auto XYZ = make_tetras(xs[0].data(), xs[1].data(), xs[2].data(), xs[3].data(), nt);
        if (dyn) fem3DapplyL(XYZ, view(pl), dm, *U, A, dynmem());
        else fem3DapplyL(XYZ, view(pl), dm, *U, A, B.get(fem3DapplyL_memory_requirements(*U, pl.size() / 4, nt)));
    } else {
        auto px = points(o);
        ArrayView<const double> X(px.data(), px.size());
        if (dyn) fem3DapplyX(tetra(xs), X, dm, *U, A, dynmem());
        else fem3DapplyX(tetra(xs), X, dm, *U, A, B.get(fem3DapplyX_memory_requirements(*U, px.size() / 3, 1)));
    }
}
}  // namespace femc
#endif
