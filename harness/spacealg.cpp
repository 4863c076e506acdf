// Driver: construction of finite element spaces and their bases as expressions (property F08)
#include "fem_common.hpp"
#include "numexpr.hpp"
#include <map>
using vp::J; using namespace Ani; using namespace femc;
static std::map<int, FemSpace> reg;
static J term(const BaseFemSpace* s) {
    J t = J::obj(), a = J::arr();
    switch (s->gatherType()) {
        case BaseFemSpace::BaseTypes::VectorType: {
            auto* v = static_cast<const VectorFemSpace*>(s); int z = 0;
            t.set("k", "vec").set("n", (int)v->vec_dim()).set("a", term(s->subSpace(&z, 1).get())); break; }
        case BaseFemSpace::BaseTypes::ComplexType: case BaseFemSpace::BaseTypes::UnionType:
            t.set("k", s->gatherType() == BaseFemSpace::BaseTypes::ComplexType ? "prod" : "union");
            for (int i = 0; ; ++i) { auto p = s->subSpace(&i, 1); if (!p) break; a.push(term(p.get())); }
            t.set("a", a); break;
        case BaseFemSpace::BaseTypes::UniteType: {
            std::string n = s->typeName();
            for (const char* k : {"P0", "P1", "P2", "P3", "B2", "B4", "CR1", "RT0", "ND0"}) { J q = J::obj(); q.set("k", k); if (*mkspace(q).base() == *s) t.set("k", k); }
            if (!t.has("k")) t.set("k", "?");
            break; }
        default: t.set("k", "?");
    }
    return t;
}
static J show(const FemSpace& s) {
    J r = J::obj();
    r.set("valid", s.isValid());
    if (!s.isValid()) return r;
    r.set("sp", term(s.base().get())).set("dim", (int)s.dim()).set("nfa", (int)s.dofMap().NumDofOnTet()).set("order", (int)s.order());
    return r;
}
int main(int argc, char** argv) {
    return vp::run(argc, argv, [&](const J& op) -> J {
        const std::string& o = op["op"].S();
        J r = J::obj();
        if (o == "case") { reg.clear(); return J(); }
        auto R = [&](const char* f) -> FemSpace& { auto it = reg.find(op[f].I()); if (it == reg.end()) std::_Exit(3); return it->second; };
        if (o == "eq") {
            const FemSpace &a = R("a"), &b = R("b");
            r.set("eq", a == b).set("qe", b == a).set("names", a.typeName() == b.typeName()).set("base", *a.base() == *b.base());
            return r;
        }
        if (o == "basis") {
            const FemSpace& s = R("a"); J ts = J::arr(); ts.push(op["T"]); auto x = corners(ts); double den = (double)op["den"].i, PSI[9];
            double e[9]; for (int k = 1; k < 4; ++k) for (int i = 0; i < 3; ++i) e[3 * (k - 1) + i] = x[k][i] - x[0][i];
            // rows of the inverse by cofactors, without the library
            auto cr = [&](const double* a, const double* b, double* c) { for (int i = 0; i < 3; ++i) c[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3]; };
            cr(e + 3, e + 6, PSI); cr(e + 6, e, PSI + 3); cr(e, e + 3, PSI + 6);
            double d = e[0] * PSI[0] + e[1] * PSI[1] + e[2] * PSI[2];
            ne::NumE<true> L(4, 1), G(4, 3);
            for (int k = 0; k < 4; ++k) L.at(k, 0) = (double)op["pt"][k].i / den;
            for (int i = 0; i < 3; ++i) { double s0 = 0; for (int k = 1; k < 4; ++k) { G.at(k, i) = PSI[3 * (k - 1) + i] / d; s0 += G.at(k, i); } G.at(0, i) = -s0; }
            Expr lmb(L), grad(G); std::vector<Expr> phi; size_t n = s.dofMap().NumDofOnTet();
            if (op["via"].S() == "vec") s.base()->evalBasisFunctions(lmb, grad, phi);
            else { phi.resize(n); for (auto& p : phi) p = lmb.zeroes(); s.evalBasisFunctions(lmb, grad, phi.data()); }
            bool ok = phi.size() == n; double S = scale(op); J v = J::arr();
            for (size_t k = 0; k < phi.size(); ++k) {
                J w = J::arr(); auto* p = phi[k].target<ne::NumE<true>>();
                double q = std::sqrt((double)op["nU"][k].i);
                if (p->c != 1) ok = false;
                for (double y : p->v) w.push(J(residue(y / q, S, ok)));
                v.push(w);
            }
            for (int k = 0; k < 4; ++k) { double y = L.at(k, 0); if (lmb.target<ne::NumE<true>>()->at(k, 0) != y) ok = false; }
            r.set("x", ok).set("v", v);
            return r;
        }
        FemSpace res;
        auto list = [&]() { std::vector<FemSpace> v; for (auto& i : op["a"].a) v.push_back(reg.at(i.I())); return v; };
        try {
            if (o == "leaf") res = mkspace(op["s"]);
            else if (o == "plus") res = R("a") + R("b");
            else if (o == "times") res = R("a") * R("b");
            else if (o == "pow") res = op["via"].S() == "pow" ? Ani::pow(R("a"), op["n"].I()) : R("a") ^ op["n"].I();
            else if (o == "unionraw") res = make_union_raw(list());
            else if (o == "union") res = make_union_with_simplification(list());
            else if (o == "prodraw") res = make_complex_raw(list());
            else if (o == "prod") res = make_complex_with_simplification(list());
            else if (o == "vecinit") { VectorFemSpace v; v.Init(op["n"].I(), R("a").base()); res = FemSpace(v); }
            else if (o == "prodinit") { ComplexFemSpace v; std::vector<std::shared_ptr<BaseFemSpace>> b; for (auto& q : list()) b.push_back(q.base()); v.Init(b); res = FemSpace(std::move(v)); }
            else if (o == "unioninit") { UnionFemSpace v; std::vector<std::shared_ptr<BaseFemSpace>> b; for (auto& q : list()) b.push_back(q.base()); v.Init(b); res = FemSpace(std::move(v)); }
            else if (o == "copy") res = op["via"].S() == "copy" ? R("a").copy() : FemSpace(R("a"));
            else if (o == "sub") {
                auto p = op["path"].ints();
                if (p.size() == 1 && op["via"].S() == "one") res = R("a").subSpace(p[0]);
                else res = R("a").subSpace(p.data(), (int)p.size());
            } else std::_Exit(3);
        } catch (const std::runtime_error&) { r.set("refused", true); return r; }
        reg[op["d"].I()] = res;
        r = show(res); r.set("refused", false);
        return r;
    });
}
