// Driver: quadrature formulas of the library.  op rule {k, n}; op moments {k, n, via, e, S}
#include "vp.hpp"
#include <algorithm>
#include <cmath>
#include "anifem++/fem/quadrature_formulas.h"
using vp::J;
struct R { int np = 0; std::vector<std::vector<double>> p, q; std::vector<double> w, v; bool sym = false; std::vector<int> part; bool same = true; };
template <class F, size_t K> static R take(F f, int extra) {
    R r; r.np = f.GetNumPoints(); r.sym = f.IsSymmetric(); auto s = f.GetSymmetryPartition(); r.part.assign(s.begin(), s.end());
    for (int i = 0; i < r.np; ++i) {
        auto x = f.GetPointWeight(i);
        r.p.emplace_back(x.p.begin(), x.p.end()); r.w.push_back(x.w);
        r.q.emplace_back(f.GetPointData() + K * i, f.GetPointData() + K * (i + 1)); r.v.push_back(f.GetWeightData()[i]);
        auto y = f.template GetPointWeight<long double>(i);
        for (size_t c = 0; c < K; ++c) if (std::fabs((double)y.p[c] - x.p[c]) > 1e-15) r.same = false;
        if ((double)y.w != x.w) r.same = false;
    }
#ifdef WITH_EIGEN
    auto B = f.BaryView(); auto W = f.WeightView();
    if (B.cols() != r.np || B.rows() != (int)K || W.size() != r.np) r.same = false;
    else for (int i = 0; i < r.np; ++i) { if (W[i] != r.v[i]) r.same = false; for (size_t c = 0; c < K; ++c) if (B(c, i) != r.q[i][c]) r.same = false; }
#endif
    (void)extra; return r;
}
static R rule(int k, int n) {
    if (k == 1) return take<SegmentQuadFormula, 2>(segment_quadrature_formulas(n), 0);
    if (k == 2) return take<TriangleQuadFormula, 3>(triangle_quadrature_formulas(n), 0);
    return take<TetraQuadFormula, 4>(tetrahedron_quadrature_formulas(n), 0);
}
int main(int argc, char** argv) {
    return vp::run(argc, argv, [&](const J& op) -> J {
        const std::string& o = op["op"].S();
        if (o == "case") return J();
        int k = op["k"].I(), n = op["n"].I();
        J res = J::obj(); R f;
        try { f = rule(k, n); } catch (const std::exception&) { res.set("refused", true); return res; }
        res.set("refused", false);
        if (o == "rule") {
            bool inside = true, unit = true, same = f.same; J gens = J::arr(), wc = J::arr(), part = J::arr();
            for (int i = 0; i < f.np; ++i) {
                double s = 0, s2 = 0;
                for (int c = 0; c <= k; ++c) { inside = inside && f.p[i][c] > 0 && f.q[i][c] > 0; s += f.p[i][c]; s2 += f.q[i][c]; if (std::fabs(f.p[i][c] - f.q[i][c]) > 1e-14) same = false; }
                if (std::fabs(s - 1) > 1e-14 || std::fabs(s2 - 1) > 1e-14) unit = false;
                if (f.w[i] != f.v[i]) same = false;
                int cl = i; for (int j = i - 1; j >= 0; --j) if (std::fabs(f.w[j] - f.w[i]) <= 1e-14 * std::fabs(f.w[i])) cl = j;
                wc.push(cl);
            }
            for (int g = 0; g < k; ++g) {
                J m = J::arr();
                for (int i = 0; i < f.np; ++i) {
                    auto x = f.p[i]; std::swap(x[g], x[g + 1]); int at = -1; double best = 1e-12;
                    for (int j = 0; j < f.np; ++j) { double d = 0; for (int c = 0; c <= k; ++c) d = std::max(d, std::fabs(x[c] - f.p[j][c])); if (d < best) best = d, at = j; }
                    m.push(at + 1);
                }
                gens.push(m);
            }
            for (int x : f.part) part.push(x);
            res.set("np", f.np); res.set("inside", inside); res.set("unit", unit); res.set("same", same); res.set("sym", f.sym); res.set("part", part); res.set("gens", gens); res.set("wc", wc);
        } else {
            auto& P = op["via"].S() == "data" ? f.q : f.p; auto& W = op["via"].S() == "data" ? f.v : f.w;
            J v = J::arr();
            for (size_t m = 0; m < op["e"].size(); ++m) {
                long double s = 0; const J& e = op["e"][m];
                for (int i = 0; i < f.np; ++i) { long double t = W[i]; for (int c = 0; c <= k; ++c) for (int a = 0; a < e[c].I(); ++a) t *= P[i][c]; s += t; }
                for (auto& x : op["S"][m].a) s *= (long double)x.i;
                long double r = std::roundl(s);
                if (!std::isfinite((double)s) || std::fabs((double)(s - r)) > 1e-11 * std::max(1.0, std::fabs((double)s))) v.push(-3);
                else v.push((long long)std::fmod((double)r, 46337.0));
            }
            res.set("v", v);
        }
        return res;
    });
}
