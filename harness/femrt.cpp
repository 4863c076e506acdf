// Runtime (FemSpace based) evaluation and integration on tetrahedra: executes the scripted calls on the real library
// and records every number it returned as  round(x * S) mod P  together with a flag telling whether x * S was whole.
#include "fem_common.hpp"
using namespace femc;

#ifndef VPPART
#define VPPART -1
#endif
typedef void Caller(const J&, Tens&, DenseMatrix<>&, Buf&);
Caller tr_pt, tr_tet, tr_sel, tr_nul, tr_sca, tr_sym, tr_gen, tr_cpt, tr_csca, tr_cgen, tr_cnul, tr_fus, tr_hnul, tr_hcon, tr_hsca, tr_hvec;
#define DEF(n, name, T, fun) \
    void name(const J& o, Tens& td, DenseMatrix<>& A, Buf& B) { runtime<T>(o, fun, td, A, B, nullptr, nullptr); }
#if VPPART == -1 || VPPART == 0
DEF(0, tr_pt, DfuncTraits<PerPoint>, tens)
DEF(0, tr_tet, DfuncTraits<PerTetra>, tens)
#endif
#if VPPART == -1 || VPPART == 1
DEF(1, tr_sel, DfuncTraits<PerSelection>, tens)
DEF(1, tr_nul, DfuncTraits<TENSOR_NULL>, tens)
typedef DfuncTraits<TENSOR_NULL, true> T_cnul;
DEF(1, tr_cnul, T_cnul, tens)
#endif
#if VPPART == -1 || VPPART == 2
DEF(2, tr_sca, DfuncTraits<TENSOR_SCALAR>, tens)
DEF(2, tr_sym, DfuncTraits<TENSOR_SYMMETRIC>, tens)
DEF(2, tr_gen, DfuncTraits<TENSOR_GENERAL>, tens)
#endif
#if VPPART == -1 || VPPART == 3
typedef DfuncTraits<PerPoint, true> T_cpt;
typedef DfuncTraits<TENSOR_SCALAR, true> T_csca;
typedef DfuncTraits<TENSOR_GENERAL, true> T_cgen;
DEF(3, tr_cpt, T_cpt, tens)
DEF(3, tr_csca, T_csca, tens)
DEF(3, tr_cgen, T_cgen, tens)
#endif
#if VPPART == -1 || VPPART == 5
// tensors made by the helpers of the library
void tr_hnul(const J& o, Tens& td, DenseMatrix<>& A, Buf& B) { runtime<DfuncTraits<TENSOR_NULL, true>>(o, TensorNull<>, td, A, B, nullptr, nullptr); }
void tr_hcon(const J& o, Tens& td, DenseMatrix<>& A, Buf& B) {
    auto f = makeConstantTensorScalar(td.c[0][0][0]);
    runtime<DfuncTraits<TENSOR_SCALAR, true>>(o, f, td, A, B, nullptr, nullptr);
}
void tr_hsca(const J& o, Tens& td, DenseMatrix<>& A, Buf& B) {
    auto g = [&td](const std::array<double, 3>& X) { return td.val(X.data(), 0, 0, 0); };
    auto f = makeScalarTensor(g);
    runtime<DfuncTraits<TENSOR_SCALAR>>(o, f, td, A, B, nullptr, nullptr);
}
void tr_hvec(const J& o, Tens& td, DenseMatrix<>& A, Buf& B) {
    auto g = [&td](const std::array<double, 3>& X) { std::array<double, 3> r; for (int i = 0; i < 3; ++i) r[i] = i < (int)td.c[0].size() ? td.val(X.data(), i, 0, 0) : 0; return r; };
    auto f = makeVectorTensor<double, 3>(g);
    runtime<DfuncTraits<PerPoint>>(o, f, td, A, B, nullptr, nullptr);
}
#endif
#if VPPART == -1 || VPPART == 4
DEF(4, tr_fus, DfuncTraitsFusive<>, tensf)

static J shape(const J& o) {
    J r = J::obj();
    auto op = mkop(o["sp"], o["opr"].S());
    FemSpace s = mkspace(o["sp"]);
    r.set("nfa", (int)op->Nfa()).set("dim", (int)op->Dim()).set("sdim", (int)s.dim()).set("order", (int)s.order());
    r.set("oporder", (int)op->Order());
    return r;
}

int main(int argc, char** argv) {
    return vp::run(argc, argv, [](const J& o) -> J {
        const std::string& k = o["op"].S();
        if (k == "case") { dynmem() = DynMem<>(); return J(); }
        if (k == "shape") return shape(o);
        if (k != "fem") std::_Exit(3);
        size_t nr, nc;
        extent(o, nr, nc);
        std::vector<double> a(nr * nc, std::nan(""));       // exactly as large as the documentation asks for
        bool cutA = o.has("cut") && o["cut"].S() == "A";      // result matrix one entry too small
        if (cutA) a = std::vector<double>(nr * nc - 1);
        DenseMatrix<> A(a.data(), nr, nc, nr * nc - (cutA ? 1 : 0));
        Buf B;
        std::string t = o["tr"].S();
        if (o.has("cut")) B.cut = cutA ? "" : o["cut"].S();
        try {
        if (t == "none") evaluate(o, A, B, nullptr);
        else {
            Tens td(o["D"], o.has("alt") ? o["alt"] : J::arr(), t == "tet");
            (t == "pt" ? tr_pt : t == "tet" ? tr_tet : t == "sel" ? tr_sel : t == "nul" ? tr_nul : t == "sca" ? tr_sca
             : t == "sym" ? tr_sym : t == "gen" ? tr_gen : t == "cpt" ? tr_cpt : t == "csca" ? tr_csca : t == "cgen" ? tr_cgen
             : t == "hnul" ? tr_hnul : t == "hcon" ? tr_hcon : t == "hsca" ? tr_hsca : t == "hvec" ? tr_hvec : t == "cnul" ? tr_cnul : t == "fus" ? tr_fus : (std::_Exit(3), tr_pt))(o, td, A, B);
        }
        } catch (std::runtime_error& e) { J r = J::obj(); return r.set("refused", true); }
        if (o.has("cut")) { J r = J::obj(); return r.set("refused", false); }
        return residues(o, A);
    });
}
#endif
