// Interpolation: executes the scripted calls on FemSpace (and, with "pair", on spaces given by types) and records the
// degrees of freedom they set as residues; entries that the call left alone are recorded as -2.
#include "fem_common.hpp"
#include "anifem++/fem/operations/interpolate.h"
using namespace femc;
#ifndef VPPART
#define VPPART -1
#endif

struct Fn {       // functions r = 0 .. fusion-1, each either polynomial or a discrete function
    const J* T; std::vector<const J*> f; size_t dim; bool bad = false;
    std::shared_ptr<ApplyOpFromSpace> op; std::vector<std::vector<double>> dofs; std::vector<std::vector<double>> xs; DynMem<> wm;
    Fn(const J& o, std::vector<int> which, const FemSpace& s) : T(&o["T"]), dim(s.dim()) {
        for (int q : which) f.push_back(&o["F"][q]);
        op = std::make_shared<ApplyOpFromSpace>(s.getOP_own(IDEN));
        xs = corners(o["T"]);
        for (auto* g : f) { dofs.emplace_back(); if (g->has("d")) for (size_t i = 0; i < (*g)["d"].size(); ++i) dofs.back().push_back((double)(*g)["d"][i].i / std::sqrt((double)o["nU"][0][i].i)); }
    }
    int eval(const std::array<double, 3>& X, double* r, uint d) {
        if (d != dim * f.size()) { bad = true; return 1; }
        for (size_t q = 0; q < f.size(); ++q) {
            double* out = r + q * dim;
            if (f[q]->has("p")) {
                const J& p = (*f[q])["p"];
                for (size_t k = 0; k < dim; ++k) {
                    double s = 0;
                    for (auto& t : p[k].a) { double m = (double)t[0].i; for (int c = 0; c < 3; ++c) for (int e = 0; e < t[c + 1].I(); ++e) m *= X[c]; s += m; }
                    out[k] = s;
                }
            } else {
                std::vector<double> v(dim);
                DenseMatrix<> A(v.data(), dim, 1), D(dofs[q].data(), dofs[q].size(), 1);
                fem3DapplyX(tetra(xs), ArrayView<const double>(X.data(), 3), D, *op, A, wm);
                std::copy(v.begin(), v.end(), out);
            }
        }
        return 0;
    }
};
static int evalptr(const std::array<double, 3>& X, double* r, uint d, void* ud) { return static_cast<Fn*>(ud)->eval(X, r, d); }
static const double STALE = 1.2345678912345e+250;
static DofT::TetGeomSparsity elements(const J& sel) {
    DofT::TetGeomSparsity sp;
    static const char* FV[4] = {"012", "123", "023", "013"};
    static const char* EV[6] = {"01", "02", "03", "12", "13", "23"};
    for (auto& e : sel.a) {
        std::vector<int> v; for (auto& x : e.a) v.push_back(x.I());
        std::sort(v.begin(), v.end());
        std::string k; for (int x : v) k += char('0' + x);
        if (v.size() == 1) sp.setNode(v[0]);
        else if (v.size() == 4) sp.setCell();
        else if (v.size() == 2) { for (int i = 0; i < 6; ++i) if (k == EV[i]) sp.setEdge(i); }
        else for (int i = 0; i < 4; ++i) if (k == FV[i]) sp.setFace(i);
    }
    return sp;
}
static DofT::TetGeomSparsity everything() { DofT::TetGeomSparsity sp; sp.setCell(true); return sp; }
static J resid(const J& o, const std::vector<double>& u, bool& ok, bool roots = true) {
    J v = J::arr();
    double S = roots ? scale(o) : 1;
    for (size_t i = 0; i < u.size(); ++i) {
        if (u[i] == STALE) { v.push(J(-2LL)); continue; }
        v.push(J(residue(u[i] * (roots ? std::sqrt((double)o["nU"][0][i].i) : 1.), S, ok)));
    }
    return v;
}
static std::vector<double> blank(size_t n) { return std::vector<double>(n, STALE); }

#if VPPART == -1 || VPPART == 0
static J runtime(const J& o) {
    FemSpace s = mkspace(o["sp"]);
    size_t n = s.dofMap().NumDofOnTet();
    auto xs = corners(o["T"]);
    auto XYZ = tetra(xs);
    uint ord = (uint)o["order"].I();
    const std::string& w = o["what"].S();
    bool plain = o["mem"].S() == "plain", ptr = o["via"].S() == "ptr", ok = true;
    int nf = (int)o["F"].size();
    J r = J::obj(), full = J::arr(), part = J::arr();
    Buf B;
    auto bad = [&](Fn& f) { if (f.bad) ok = false; };
    auto sel = elements(o["sel"]);
    std::vector<int> path; for (auto& x : o["path"].a) path.push_back(x.I());
    if (w == "const") {
        auto u = blank(n);
        if (path.empty()) s.interpolateConstant((double)o["val"].i, view(u), sel);
        else s.interpolateConstant((double)o["val"].i, view(u), sel, s.dofMap().GetNestedDofMapView(path.data(), path.size()));
        part.push(resid(o, u, ok, false));
        return r.set("x", ok).set("full", full).set("part", part);
    }
    if (w == "region") {
        auto u = blank(n);
        Fn f(o, {0}, s);
        static const char* FV[4] = {"012", "123", "023", "013"};
        static const char* EV[6] = {"01", "02", "03", "12", "13", "23"};
        std::vector<int> v; for (auto& x : o["reg"].a) v.push_back(x.I());
        std::sort(v.begin(), v.end());
        std::string k; for (int x : v) k += char('0' + x);
        int el = 0; unsigned char tp = DofT::CELL;
        if (v.size() == 1) el = v[0], tp = DofT::NODE;
        else if (v.size() == 2) { tp = o["ori"].B() ? DofT::EDGE_ORIENT : DofT::EDGE_UNORIENT; for (int i = 0; i < 6; ++i) if (k == EV[i]) el = i; }
        else if (v.size() == 3) { tp = o["ori"].B() ? DofT::FACE_ORIENT : DofT::FACE_UNORIENT; for (int i = 0; i < 4; ++i) if (k == FV[i]) el = i; }
        BaseFemSpace::EvalFunctor g = [&f](const std::array<double, 3>& X, double* res, uint d, void*) { return f.eval(X, res, d); };
        s.interpolateOnRegion(XYZ, g, view(u), tp, el, B.get(s.interpolateOnRegion_mem_req(tp, ord)), nullptr, ord);
        bad(f);
        part.push(resid(o, u, ok));
        return r.set("x", ok).set("full", full).set("part", part);
    }
    for (int q = 0; q < nf; ++q) {
        auto u = blank(n);
        Fn f(o, {q}, s);
        if (ptr) s.interpolateByDOFs(XYZ, evalptr, view(u), everything(), dynmem(), &f, ord);
        else {
            auto g = [&f](const std::array<double, 3>& X, double* res, uint d, void*) { return f.eval(X, res, d); };
            s.interpolateByDOFs(XYZ, g, view(u), everything(), B.get(s.interpolateByDOFs_mem_req(ord)), nullptr, ord);
        }
        bad(f);
        full.push(resid(o, u, ok));
    }
    if (w == "dof") {
        std::vector<std::vector<double>> u(nf, blank(n));
        std::vector<ArrayView<>> us; for (auto& x : u) us.push_back(view(x));
        std::vector<int> all; for (int q = 0; q < nf; ++q) all.push_back(q);
        Fn f(o, all, s);
        int i = o["dof"].I();
        auto g = [&f](const std::array<double, 3>& X, double* res, uint d, void*) { return f.eval(X, res, d); };
        auto* b = s.base().get();
        if (plain) {
            auto m = B.get(b->interpolateOnDOF_mem_req(i, nf, ord));
            if (ptr) b->interpolateOnDOF(XYZ, evalptr, us.data(), i, nf, m, &f, ord);
            else s.interpolateOnDOF(XYZ, g, us.data(), i, nf, m, nullptr, ord);
        } else {
            if (ptr) b->interpolateOnDOF(XYZ, evalptr, us.data(), i, nf, dynmem(), &f, ord);
            else s.interpolateOnDOF(XYZ, g, us.data(), i, nf, dynmem(), nullptr, ord);
        }
        bad(f);
        for (int q = 0; q < nf; ++q) { part.push(resid(o, u[q], ok)); if (us[q].data != u[q].data() || us[q].size != n) ok = false; }
        return r.set("x", ok).set("full", full).set("part", part);
    }
    for (int q = 0; q < nf; ++q) {
        auto u = blank(n);
        Fn f(o, {q}, s);
        auto g = [&f](const std::array<double, 3>& X, double* res, uint d, void*) { return f.eval(X, res, d); };
        if (path.empty()) {
            if (plain) { if (ptr) s.interpolateByDOFs(XYZ, evalptr, view(u), sel, B.get(s.interpolateByDOFs_mem_req(ord)), &f, ord); else s.interpolateByDOFs(XYZ, g, view(u), sel, B.get(s.interpolateByDOFs_mem_req(ord)), nullptr, ord); }
            else s.interpolateByDOFs(XYZ, g, view(u), sel, dynmem(), nullptr, ord);
        } else {
            auto sub = s.dofMap().GetNestedDofMapView(path.data(), path.size());
            if (plain) s.interpolateByDOFs(XYZ, g, view(u), sel, sub, B.get(s.interpolateByDOFs_mem_req(ord)), nullptr, ord);
            else s.interpolateByDOFs(XYZ, g, view(u), sel, sub, dynmem(), nullptr, ord);
        }
        bad(f);
        part.push(resid(o, u, ok));
    }
    return r.set("x", ok).set("full", full).set("part", part);
}
#endif

// ------------------------------------------------------------------ spaces given by types
template <int N> using F = FemFix<N>;
typedef FemUnionT<F<FEM_P1>, F<FEM_B4>> Mini;
typedef FemUnionT<FemVec<3, FEM_P1>, FemVec<3, FEM_B4>> Mini3;
typedef FemUnionT<F<FEM_RT0>, FemVec<3, FEM_B4>> RTB;
template <class FEM> static J typed(const J& o) {
    FemSpace s = mkspace(o["sp"]);
    const size_t n = Operator<IDEN, FEM>::Nfa::value;
    auto xs = corners(o["T"]);
    auto XYZ = tetra(xs);
    uint ord = (uint)o["order"].I();
    const std::string& w = o["what"].S();
    bool ok = true;
    int nf = (int)o["F"].size();
    J r = J::obj(), full = J::arr(), part = J::arr();
    auto sel = elements(o["sel"]);
    if (w == "const") {
        auto u = blank(n);
        interpolateConstant<FEM>((double)o["val"].i, view(u), sel);
        part.push(resid(o, u, ok, false));
        return r.set("x", ok).set("full", full).set("part", part);
    }
    auto one = [&](int q, const DofT::TetGeomSparsity& e, J& to) {
        auto u = blank(n);
        Fn f(o, {q}, s);
        auto g = [](const std::array<double, 3>& X, double* res, uint d, void* ud) { return static_cast<Fn*>(ud)->eval(X, res, d); };
        interpolateByDOFs<FEM>(XYZ, g, view(u), e, &f, ord);
        if (f.bad) ok = false;
        to.push(resid(o, u, ok));
    };
    for (int q = 0; q < nf; ++q) one(q, everything(), full);
    if (w == "dof") {
        std::vector<std::vector<double>> u(nf, blank(n));
        std::vector<int> all; for (int q = 0; q < nf; ++q) all.push_back(q);
        Fn f(o, all, s);
        int i = o["dof"].I();
        auto g = [&f](const std::array<double, 3>& X, double* res, uint d, void*) { return f.eval(X, res, d); };
        if (nf == 1) Dof<FEM>::interpolate(XYZ, g, view(u[0]), i, nullptr, ord);
        else if (nf == 2) Dof<FEM>::template interpolate<2>(XYZ, g, std::array<ArrayView<>, 2>{view(u[0]), view(u[1])}, i, nullptr, ord);
        else if (nf == 3) Dof<FEM>::template interpolate<3>(XYZ, g, std::array<ArrayView<>, 3>{view(u[0]), view(u[1]), view(u[2])}, i, nullptr, ord);
        if (f.bad) ok = false;
        for (int q = 0; q < nf; ++q) part.push(resid(o, u[q], ok));
    } else for (int q = 0; q < nf; ++q) one(q, sel, part);
    return r.set("x", ok).set("full", full).set("part", part);
}
template <class FEM> static J buildt() {
    auto x = blank(Operator<IDEN, FEM>::Nfa::value);
    auto xs = std::vector<double>{0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1};
    Tetra<const double> XYZ(xs.data(), xs.data() + 3, xs.data() + 6, xs.data() + 9);
    bool refused = false;
    try { interpolateByDOFs<FEM>(XYZ, [](const std::array<double, 3>&, double* r, uint d, void*) { std::fill(r, r + d, 1.); return 0; }, view(x), everything()); } catch (std::runtime_error&) { refused = true; }
    J r = J::obj();
    return r.set("refused", refused);
}
template <class FEM> static J placed(const J& o) {
    std::vector<double> xs;
    for (auto& x : corners(o["T"])) xs.insert(xs.end(), x.begin(), x.begin() + 3);
    J r = J::obj(), p = J::arr();
    bool ok = true;
    for (int i = 0; i < (int)Operator<IDEN, FEM>::Nfa::value; ++i) {
        auto c = blank(3);
        J v = J::arr();
        try { DOF_coord<FEM>::at(i, xs.data(), c.data()); for (int k = 0; k < 3; ++k) v.push(J(residue(c[k], 12, ok))); } catch (std::runtime_error&) { v = J::arr(); }
        p.push(v);
    }
    return r.set("x", ok).set("p", p);
}
typedef J Typed(const J&);
Typed typed0, typed1, typed2, typed3;
#define X(i, ...) case i: return o["op"].S() == "mkspace" ? buildt<__VA_ARGS__>() : o["op"].S() == "place" ? placed<__VA_ARGS__>(o) : typed<__VA_ARGS__>(o);
#define GROUP(name, ...) J name(const J& o) { switch (o["type"].I()) { __VA_ARGS__ } std::_Exit(3); }
typedef FemVecT<2, FemCom<F<FEM_P1>, F<FEM_P0>>> Com2;
#if VPPART == -1 || VPPART == 1
GROUP(typed0, X(0, F<FEM_P0>) X(1, F<FEM_P1>) X(2, F<FEM_P2>) X(3, F<FEM_P3>) X(4, F<FEM_B2>) X(5, F<FEM_B4>) X(6, F<FEM_CR1>))
#endif
#if VPPART == -1 || VPPART == 2
GROUP(typed1, X(7, F<FEM_RT0>) X(8, F<FEM_ND0>) X(9, FemVec<3, FEM_P1>) X(10, FemVecT<2, F<FEM_P2>>) X(11, Com2) X(12, FemCom<FemVec<2, FEM_P1>, F<FEM_P2>>))
#endif
#if VPPART == -1 || VPPART == 3
GROUP(typed2, X(13, FemCom<F<FEM_RT0>, F<FEM_P0>>) X(14, Mini) X(15, Mini3) X(16, FemVecT<3, Mini>) X(17, FemCom<Mini, Mini, F<FEM_P1>>) X(18, FemCom<F<FEM_ND0>, F<FEM_P1>>))
#endif
#if VPPART == -1 || VPPART == 4
GROUP(typed3, X(19, RTB) X(20, FemUnionT<F<FEM_P1>, F<FEM_B2>>) X(21, FemUnionT<F<FEM_P0>, F<FEM_B4>, F<FEM_B2>>) X(22, FemUnionT<F<FEM_P0>, F<FEM_P1>>)
      X(23, FemUnionT<F<FEM_RT0>, F<FEM_ND0>>) X(24, FemUnionT<F<FEM_P1>, F<FEM_CR1>>) X(25, FemUnionT<F<FEM_P2>, F<FEM_B2>>) X(26, FemUnionT<F<FEM_ND0>, FemVec<3, FEM_B4>>))
#endif

#if VPPART == -1 || VPPART == 0
int main(int argc, char** argv) {
    return vp::run(argc, argv, [](const J& o) -> J {
        const std::string& k = o["op"].S();
        if (k == "case") { dynmem() = DynMem<>(); return J(); }
        if (o.has("type")) {
            int t = o["type"].I();
            return t <= 6 ? typed0(o) : t <= 12 ? typed1(o) : t <= 18 ? typed2(o) : typed3(o);
        }
        if (k == "mkspace") {
            J r = J::obj();
            bool refused = false;
            try { mkspace(o["sp"]); } catch (std::runtime_error&) { refused = true; }
            return r.set("refused", refused);
        }
        if (k != "itp") std::_Exit(3);
        return runtime(o);
    });
}
#endif
