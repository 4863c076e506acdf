// Driver: programs over Ani::Expr with a matrix backend (property X01)
#include "vp.hpp"
#include "numexpr.hpp"
using vp::J; using Ani::Expr; namespace FT = Ani::FT;
using Mx = ne::NumE<false>;
static Expr R[6];
static Mx mat(const J& m) { Mx x(m.size(), m[0].size()); for (size_t i = 0; i < x.r; ++i) for (size_t j = 0; j < x.c; ++j) x.at(i, j) = Mx::nrm((double)m[i][j].i); return x; }
static J all() {
    J a = J::arr();
    for (auto& e : R) {
        J o = J::obj(), v = J::arr();
        if (e.m_invoker) for (double x : e.target<Mx>()->v) v.push((long long)std::llround(x));
        o.set("r", (int)e.nrows()).set("c", (int)e.ncols()).set("v", v); a.push(o);
    }
    return a;
}
template <class A, class B> static Expr bin(const std::string& f, const A& a, const B& b) {
#define OP(S) if (f == #S) return a S b;
    OP(+) OP(-) OP(*) OP(/) OP(<) OP(<=) OP(>) OP(>=) OP(==) OP(!=) OP(&&) OP(||)
#undef OP
#define OP(S) if (f == #S) return FT::S(a, b);
    OP(pow) OP(atan2) OP(fmod) OP(hypot) OP(min) OP(max) OP(dot) OP(cross) OP(mtimes)
    std::_Exit(3);
}
static Expr un(const std::string& f, const Expr& a) {
    if (f == "neg") return -a;
    if (f == "not") return !a;
#define OP1(S) if (f == #S) return FT::S(a);
    OP1(abs) OP1(exp) OP1(expm1) OP1(log) OP1(log1p) OP1(sqrt) OP1(cbrt) OP1(sin) OP1(cos) OP1(tan) OP1(asin) OP1(acos) OP1(atan) OP1(sinh) OP1(cosh) OP1(tanh)
    OP1(erf) OP1(erfc) OP1(tgamma) OP1(lgamma) OP1(floor) OP1(ceil) OP1(sign) OP1(sq) OP1(norm)
    std::_Exit(3);
}
template <class A, class B, class C> static Expr tri(const std::string& f, const A& a, const B& b, const C& c) {
    if (f == "fma") return FT::fma(a, b, c);
    if (f == "ifelse") return FT::ifelse(a, b, c);
    std::_Exit(3);
}
int main(int argc, char** argv) {
    return vp::run(argc, argv, [&](const J& op) -> J {
        const std::string& o = op["op"].S();
        if (o == "case") { for (auto& e : R) e = Expr(); return J(); }
        J r = J::obj();
        auto reg = [&](const char* k) -> Expr& { return R[op[k].I()]; };
        auto list = [&]() { std::vector<Expr> v; for (auto& i : op["a"].a) v.push_back(R[i.I()]); return v; };
        auto isr = [&](const char* k) { return op[k].has("reg"); };
        auto num = [&](const char* k) { return (double)op[k]["num"].i; };
        auto ar = [&](const char* k) -> Expr& { return R[op[k]["reg"].I()]; };
        std::string f = op.has("f") ? op["f"].S() : "", via = op.has("via") ? op["via"].S() : "";
        try {
            Expr res; bool put = true;
            if (o == "lit") {
                Mx x = mat(op["m"]);
                if (via == "ctor") res = Expr(x); else if (via == "move") res = Expr(std::move(x));
                else if (via == "shared") { auto p = std::make_shared<Mx>(x); std::shared_ptr<Ani::BaseExpr> q = p; res = Expr(q); p->set_val(777.); }
                else { auto p = std::make_shared<Mx>(x); res = p; p->set_val(777.); }
            } else if (o == "un") res = un(f, reg("a"));
            else if (o == "bin") res = isr("a") ? (isr("b") ? bin(f, ar("a"), ar("b")) : bin(f, ar("a"), num("b"))) : bin(f, num("a"), ar("b"));
            else if (o == "tri") {
                bool a = isr("a"), b = isr("b"), c = isr("c");
                res = a && b && c ? tri(f, ar("a"), ar("b"), ar("c")) : a && b ? tri(f, ar("a"), ar("b"), num("c")) : a && c ? tri(f, ar("a"), num("b"), ar("c"))
                    : b && c ? tri(f, num("a"), ar("b"), ar("c")) : a ? tri(f, ar("a"), num("b"), num("c")) : b ? tri(f, num("a"), ar("b"), num("c")) : tri(f, num("a"), num("b"), ar("c"));
            } else if (o == "inplace") {
                Expr &a = reg("d"), &b = reg("b"); put = false;
                if (f == "+") a += b; else if (f == "-") a -= b; else if (f == "*") a *= b; else a /= b;
            } else if (o == "gather") {
                auto v = list(); const Expr* p = v.data();
                if (via == "list" && v.size() == 2) res = f == "vertcat" ? FT::vertcat({v[0], v[1]}) : FT::horzcat({v[0], v[1]});
                else res = f == "min" ? FT::min(p, p + v.size()) : f == "max" ? FT::max(p, p + v.size()) : f == "mtimes" ? FT::mtimes(p, p + v.size())
                    : f == "vertcat" ? FT::vertcat(p, p + v.size()) : FT::horzcat(p, p + v.size());
            } else if (o == "scalsum") { auto v = list(); std::vector<double> k; for (auto& x : op["k"].a) k.push_back((double)x.i); res = FT::scalsum(v.data(), v.data() + v.size(), k.data()); }
            else if (o == "sub1") {
                std::vector<size_t> i, j; for (auto& x : op["i"].a) i.push_back((size_t)x.i); for (auto& x : op["j"].a) j.push_back((size_t)x.i);
                if (via == "list" && i.size() == 2 && j.size() == 1) res = FT::submatrix(reg("a"), {i[0], i[1]}, {j[0]});
                else res = FT::submatrix(reg("a"), i.data(), i.size(), j.data(), (long)j.size());
            } else if (o == "sub2") res = FT::submatrix(reg("a"), (size_t)op["i"].I(), (long)op["di"].I(), (size_t)op["j"].I(), (long)op["dj"].I());
            else if (o == "elt") res = reg("a")((size_t)op["i"].I(), (size_t)op["j"].I());
            else if (o == "row") res = reg("a").row((size_t)op["i"].I());
            else if (o == "col") res = reg("a").col((size_t)op["j"].I());
            else if (o == "T") res = reg("a").T();
            else if (o == "det3") res = FT::det3x3(reg("a"));
            else if (o == "zeroes") res = reg("a").zeroes((size_t)op["n"].I(), (size_t)op["k"].I());
            else if (o == "num") { reg("a") = (double)op["x"].i; put = false; }
            else if (o == "arr") { std::vector<double> x; for (auto& y : op["x"].a) x.push_back((double)y.i); reg("a") = x.data(); put = false; }
            else if (o == "mat") { Mx x = mat(op["m"]); reg("a") = x; x.set_val(777.); put = false; }
            else if (o == "reshape") { reg("a").reshape((size_t)op["n"].I(), (size_t)op["k"].I()); put = false; }
            else if (o == "copy") { put = false; if (via == "ctor") { Expr t(reg("a")); reg("d") = std::move(t); } else if (via == "shared") { Expr t; if (reg("a").m_invoker) { auto q = reg("a").base(); t = q; } reg("d") = t; } else reg("d") = reg("a"); }
            else if (o == "move") { put = false; reg("d") = std::move(reg("a")); }
            else if (o == "empty") {}
            else std::_Exit(3);
            if (put) reg("d") = std::move(res);
            r.set("refused", false);
        } catch (const std::exception&) { r.set("refused", true); }
        r.set("all", all());
        return r;
    });
}
