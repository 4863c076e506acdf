// Driver: Dirichlet conditions on an elemental system.
#include "vp.hpp"
#include <cmath>
#include <memory>
#include "anifem++/fem/tetdofmap.h"
using namespace Ani;
using namespace Ani::DofT;
using vp::J;
typedef std::shared_ptr<BaseDofMap> P;
static P build(const J& t) {
    const std::string& k = t["k"].S();
    if (k == "U") { std::array<uint, NGEOM_TYPES> n; for (int i = 0; i < 6; ++i) n[i] = t["n"][i].I(); return std::make_shared<UniteDofMap>(n); }
    if (k == "V") return std::make_shared<VectorDofMap>(t["d"].I(), build(t["b"]));
    std::vector<P> v; for (auto& x : t["p"].a) v.push_back(build(x));
    return std::make_shared<ComplexDofMap>(v);
}
struct Mat {
    std::unique_ptr<double[]> d; size_t r, c; DenseMatrix<double> m;
    Mat(size_t r_, size_t c_) : d(new double[r_ * c_]), r(r_), c(c_), m(d.get(), r_, c_) {}
    static Mat rows(const J& j) { size_t n = j.size(), k = n ? j[0].size() : 0; Mat a(n, k); for (size_t i = 0; i < n; ++i) for (size_t q = 0; q < k; ++q) a.d[i + q * n] = j[i][q].I(); return a; }
    static Mat col(const J& j) { Mat a(j.size(), 1); for (size_t i = 0; i < j.size(); ++i) a.d[i] = j[i].I(); return a; }
};
static bool exact;
static J num(double x, double s) { double y = x * s, z = std::round(y); if (!(std::fabs(y - z) < 1e-6)) exact = false; return J((long long)z); }
static J outM(const Mat& a, double s) { J j = J::arr(); for (size_t i = 0; i < a.r; ++i) { J q = J::arr(); for (size_t k = 0; k < a.c; ++k) q.push(num(a.d[i + k * a.r], s)); j.push(q); } return j; }
static J outV(const Mat& a, double s) { J j = J::arr(); for (size_t i = 0; i < a.r; ++i) j.push(num(a.d[i], s)); return j; }
int main(int argc, char** argv) {
    return vp::run(argc, argv, [&](const J& op) -> J {
        const std::string& o = op["op"].S();
        if (o == "case") return J();
        exact = true;
        Mat A = Mat::rows(op["A"]), F = Mat::col(op["F"]);
        const std::string& f = op["f"].S();
        double s = 1;
        if (o == "one") {
            int k = op["k"].I(); double bc = op["bc"].I();
            if (f == "dir") applyDir<double>(A.m, F.m, k, bc);
            else if (f == "matrix") applyDirMatrix<double>(A.m, k);
            else if (f == "none") applyDirNonExists<double>(A.m, F.m, k);
            else if (f == "noneA") applyDirNonExists<double>(A.m, k);
            else if (f == "res") applyDirResidual<double>(F.m, k);
            else std::_Exit(3);
        } else if (o == "map") {
            TetGeomSparsity sp; for (int d = 0; d < 4; ++d) for (auto& e : op["sp"][d].a) sp.set((uchar)d, e.I());
            P t = build(op["trial"]), u = build(op["test"]);
            std::vector<double> gv; for (auto& x : op["g"].a) gv.push_back(x.I());
            bool cst = op["const"].B(), two = op["two"].B();
            std::unique_ptr<double[]> gd(new double[gv.size()]); std::copy(gv.begin(), gv.end(), gd.get());
            ArrayView<const double> g(gd.get(), gv.size());
            if (f == "dir") {
                if (two) cst ? applyConstantDirByDofs<double>(*t, *u, A.m, F.m, sp, gv[0]) : applyDirByDofs<double>(*t, *u, A.m, F.m, sp, g);
                else cst ? applyConstantDirByDofs<double>(*t, A.m, F.m, sp, gv[0]) : applyDirByDofs<double>(*t, A.m, F.m, sp, g);
            } else if (f == "matrix") two ? applyDirMatrix<double>(*t, *u, A.m, sp) : applyDirMatrix<double>(*t, A.m, sp);
            else if (f == "none") two ? applyDirNonExists<double>(*t, *u, A.m, F.m, sp) : applyDirNonExists<double>(*t, A.m, F.m, sp);
            else if (f == "noneA") applyDirNonExists<double>(*t, two ? *u : *t, A.m, sp);
            else if (f == "res") applyDirResidual<double>(two ? *u : *t, F.m, sp);
            else if (f == "resA") two ? applyDirResidual<double>(*t, *u, A.m, F.m, sp) : applyDirResidual<double>(*t, A.m, F.m, sp);
            else std::_Exit(3);
        } else if (o == "vec") {
            double den = op["den"].I(); s = den * den * den;
            Mat Q = Mat::rows(op["q"]); for (size_t i = 0; i < Q.r * Q.c; ++i) Q.d[i] /= den;
            auto dl = op["dofs"].ints(); std::vector<uint> dofs(dl.begin(), dl.end());
            uint ndc = op["ndc"].I(); auto ol = op["orth"].ints(); std::vector<uint> orth(ol.begin(), ol.end()); const uint* po = orth.empty() ? nullptr : orth.data();
            size_t ms = (f == "res" || f == "col") ? Q.c : Q.c * std::max(A.r, A.c);
            std::unique_ptr<double[]> mem(new double[ms]); for (size_t i = 0; i < ms; ++i) mem[i] = 1e9; ArrayView<double> mv(mem.get(), ms);
            std::unique_ptr<double[]> bcd(new double[ndc]); for (uint i = 0; i < ndc; ++i) bcd[i] = op["bc"][(size_t)i].I(); ArrayView<double> bc(bcd.get(), ndc);
            ArrayView<double> fv(F.d.get(), F.r);
            if (f == "full") { if (op["via"].I()) applyVectorDir<double>(A.m, F.m, dofs.data(), Q.m, bc, mv, ndc, po); else applyVectorDir<double>(A.m, F.m, dofs, Q.m, bc, mv, ndc, po); }
            else if (f == "matrix") applyVectorDirMatrix<double>(A.m, dofs.data(), Q.m, mv, ndc, po);
            else if (f == "res") applyVectorDirResidual<double>(F.m, dofs.data(), Q.m, mv, ndc, po);
            else if (f == "col") applyVectorDirMatrixExtCol<double>(fv, dofs.data(), Q.m, mv, ndc, po);
            else if (f == "row") applyVectorDirMatrixExtRow<double>(fv, dofs.data(), Q.m, ndc, po);
            else std::_Exit(3);
        } else std::_Exit(3);
        J a = outM(A, s), v = outV(F, s);
        return J::obj().set("A", a).set("F", v).set("exact", exact);
    });
}
