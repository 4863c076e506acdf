// Driver: programs over Ani's automatic differentiation (anifem++/autodiff/autodiff.h), several storages.
#include "vp.hpp"
#include <algorithm>
#include <limits>
#include <memory>
#include "anifem++/autodiff/autodiff.h"
using namespace Ani;
using vp::J;
static const long long PRIME = 46337;
#ifndef VPPART
#define VPPART 0
#endif
struct Machine { virtual ~Machine() {} virtual J step(const J& o) = 0; };
Machine* make0(const J&); Machine* make1(const J&); Machine* make2(const J&); Machine* make3(const J&);
Machine* make4(const J&); Machine* make5(const J&); Machine* make6(const J&); Machine* make7(const J&);
J standard(const J&);

static long double num(const J& o) { return (long double)o[0].i / o[1].i; }
// values of elementary functions, chosen by the script: [name, argument, value]
struct Table { std::string f; double a, v; };
extern std::vector<Table> g_tab;
extern bool g_x;
#if VPPART == 0
std::vector<Table> g_tab; bool g_x;
#endif
static double look(const char* f, double a) {
    for (auto& t : g_tab) if (t.f == f && std::fabs(t.a - a) <= 1e-9 * (1 + std::fabs(a))) return t.v;
    return std::numeric_limits<double>::quiet_NaN();
}
// elementary functions with prescribed values, algebraic ones are the true ones
struct ModelOps : FTMathOperations<double> {
    static double atan2(double y, double x) {
        for (auto& t : g_tab) if (t.f == "atan2") return t.v;
        return look("atan2", y / x);
    }
    static double exp(double a) { return look("exp", a); }
    static double expm1(double a) { return look("expm1", a); }
    static double log(double a) { return look("log", a); }
    static double log1p(double a) { return look("log1p", a); }
    static double sin(double a) { return look("sin", a); }
    static double cos(double a) { return look("cos", a); }
    static double tan(double a) { return look("tan", a); }
    static double atan(double a) { return look("atan", a); }
    static double asin(double a) { return look("asin", a); }
    static double acos(double a) { return look("acos", a); }
    static double sinh(double a) { return look("sinh", a); }
    static double cosh(double a) { return look("cosh", a); }
    static double tanh(double a) { return look("tanh", a); }
};
template <size_t N, class FT = double, class M = FTMathOperations<FT>> struct Arr {
    using ST = ADStorageSet<FT, PhysArr<N, FT>, SymMtx<N, FT>, M>;
    enum { n = N };
    static FT g(const typename ST::GradientType& d, size_t i) { return d[i]; }
    static FT h(const typename ST::HessianType& d, size_t i, size_t j) { return d(i, j); }
};
template <size_t N, class FT = double, class M = FTMathOperations<FT>> struct Ten {
    using ST = ADStorageSet<FT, PhysMtx<N, FT>, SymTensor4Rank<N, FT>, M>;
    enum { n = N * N };
    static FT g(const typename ST::GradientType& d, size_t i) { return d(i / N, i % N); }
    static FT h(const typename ST::HessianType& d, size_t i, size_t j) { return d(i / N, i % N, j / N, j % N); }
};
template <size_t N, class FT = double, class M = FTMathOperations<FT>> struct Sym {
    using ST = ADStorageSet<FT, SymMtx<N, FT>, BiSymTensor4Rank<N, FT>, M>;
    enum { n = N * (N + 1) / 2 };
    static void ij(size_t k, size_t& i, size_t& j) { i = 0; size_t r = N; while (k >= r) { k -= r; --r; ++i; } j = i + k; }
    static FT g(const typename ST::GradientType& d, size_t i) { size_t a, b; ij(i, a, b); return d(b, a); }
    static FT h(const typename ST::HessianType& d, size_t i, size_t j) { size_t a, b, c, e; ij(i, a, b); ij(j, c, e); return d(b, a, c, e); }
};

template <class SG> struct Run : Machine {
    using ST = typename SG::ST; using VT = typename ST::ValueType;
    using F = ADVal<ADState<true, true, true>, ST>; using V = Var<ST>; using P = Param<ST>;
    std::vector<F> reg; std::vector<VT> x; int dif; double tol;
    Run(const J& o) : reg(o["regs"].I()), dif(o["dif"].I()), tol(o["tol"].i * 1e-6) { for (auto& c : o["x"].a) x.push_back((VT)num(c)); }
    V var(const J& o) {
        size_t i = o["i"].I() - 1;
        if (o["i"].I() % 2) { V v; v.Init(i, x[i], dif); return v; }
        return V(i, x[i], dif);
    }
    P par(const J& c) { return P((VT)num(c)); }
    template <class G> void with(const J& o, G g) {
        const std::string& k = o["k"].S();
        if (k == "v") g(var(o));
        else if (k == "p") { P p; p.Init((VT)num(o["c"])); g(p); }
        else if (k == "l") { J o2 = o; o2.set("i", o["j"]); g(par(o["c"]) * var(o) + var(o2)); }
        else if (k == "s") g(sign(reg[o["r"].I() - 1]));
        else g(reg[o["r"].I() - 1]);
    }
    J res(VT w, long double S) {
        long double v = (long double)w * S;
        if (!(v < 1e12L && v > -1e12L)) { g_x = false; return J(-2LL); }
        long long n = std::llround(v);
        if (fabsl(v - n) > tol) g_x = false;
        long long r = n % PRIME; return J(r < 0 ? r + PRIME : r);
    }
    J show(const F& f, long double S) {
        J r = J::obj(), g = J::arr(), h = J::arr();
        g_x = true;
        r.set("v", res(f(), S));
        if (dif >= 1) for (size_t i = 0; i < SG::n; ++i) g.push(res(SG::g(f.D(), i), S));
        if (dif >= 2) for (size_t i = 0; i < SG::n; ++i) for (size_t j = i; j < SG::n; ++j) h.push(res(SG::h(f.DD(), i, j), S));
        return r.set("g", g).set("h", h).set("x", g_x);
    }
    template <class A, class B> void bin(const std::string& f, A a, B b, F& d) {
        if (f == "add") d = make_shell(a + b);
        else if (f == "sub") d = make_shell(a - b);
        else if (f == "mul") d = make_shell(a * b);
        else if (f == "div") d = make_shell(a / b);
        else if (f == "min") d = make_shell(min(a, b));
        else if (f == "max") d = make_shell(max(a, b));
        else if (f == "pow") d = make_shell(pow(a, b));
        else if (f == "atan2") d = make_shell(atan2(a, b));
        else std::_Exit(3);
    }
    template <class A> void binr(const std::string& f, A a, VT b, F& d) {
        if (f == "add") d = make_shell(a + b);
        else if (f == "sub") d = make_shell(a - b);
        else if (f == "mul") d = make_shell(a * b);
        else if (f == "div") d = make_shell(a / b);
        else if (f == "pow") d = make_shell(pow(a, b));
        else std::_Exit(3);
    }
    template <class A> void binl(const std::string& f, VT b, A a, F& d) {
        if (f == "add") d = make_shell(b + a);
        else if (f == "sub") d = make_shell(b - a);
        else if (f == "mul") d = make_shell(b * a);
        else if (f == "div") d = make_shell(b / a);
        else if (f == "pow") d = make_shell(pow(b, a));
        else std::_Exit(3);
    }
    template <class A> void un(const J& o, A a, F& d) {
        const std::string& f = o["fn"].S();
        if (f == "neg") d = make_shell(-a);
        else if (f == "val") d = make_shell(make_ADVal(a));
        else if (f == "shell") d = make_shell(a);
        else if (f == "abs") d = make_shell(abs(a));
        else if (f == "sign") d = make_shell(sign(a));
        else if (f == "sq") d = make_shell(sq(a));
        else if (f == "cube") d = make_shell(cube(a));
        else if (f == "powi") d = make_shell(pow(a, o["q"].I()));
        else if (f == "powl") d = make_shell(pow(a, (long)o["q"].I()));
        else if (f == "powr") d = make_shell(pow(a, (VT)num(o["q"])));
        else if (f == "sqrt") d = make_shell(sqrt(a));
        else if (f == "cbrt") d = make_shell(cbrt(a));
        else if (f == "exp") d = make_shell(exp(a));
        else if (f == "expm1") d = make_shell(expm1(a));
        else if (f == "log") d = make_shell(log(a));
        else if (f == "log1p") d = make_shell(log1p(a));
        else if (f == "sin") d = make_shell(sin(a));
        else if (f == "cos") d = make_shell(cos(a));
        else if (f == "tan") d = make_shell(tan(a));
        else if (f == "atan") d = make_shell(atan(a));
        else if (f == "asin") d = make_shell(asin(a));
        else if (f == "acos") d = make_shell(acos(a));
        else if (f == "sinh") d = make_shell(sinh(a));
        else if (f == "cosh") d = make_shell(cosh(a));
        else if (f == "tanh") d = make_shell(tanh(a));
        else std::_Exit(3);
    }
    template <class X, class G> F hyp(const J& l, G get) {
        std::vector<X> v; for (auto& o : l.a) v.push_back(get(o));
        return make_shell(hypot(v.data(), v.size()));
    }
    J step(const J& o) override {
        g_tab.clear();
        if (o.has("tab")) for (auto& t : o["tab"].a) g_tab.push_back({t[0].S(), (double)num(t[1]), (double)num(t[2])});
        const std::string& op = o["op"].S();
        if (op == "cmp") {
            J r = J::arr();
            with(o["a"], [&](auto a) { with(o["b"], [&](auto b) { r.push(a < b).push(a > b).push(a <= b).push(a >= b).push(a == b).push(a != b); }); });
            return r;
        }
        F& d = reg[o["d"].I() - 1];
        if (op == "un") with(o["a"], [&](auto a) { un(o, a, d); });
        else if (op == "bin") with(o["a"], [&](auto a) { with(o["b"], [&](auto b) { F t; bin(o["fn"].S(), a, b, t); d = t; }); });
        else if (op == "binr") with(o["a"], [&](auto a) { binr(o["fn"].S(), a, (VT)num(o["c"]), d); });
        else if (op == "binl") with(o["a"], [&](auto a) { binl(o["fn"].S(), (VT)num(o["c"]), a, d); });
        else if (op == "asn") {
            F t = reg[o["r0"].I() - 1]; const std::string& f = o["fn"].S(); F* p;
            if (f == "add") p = &(d += t); else if (f == "sub") p = &(d -= t); else if (f == "mul") p = &(d *= t); else p = &(d /= t);
            if (p != &d) std::_Exit(3);
        } else if (op == "hypot") {
            const std::string& k = o["l"][0]["k"].S();
            if (k == "v") d = hyp<V>(o["l"], [&](const J& e) { return var(e); });
            else if (k == "r") {
                if (o["l"].size() == 2 && o["il"].B()) d = make_shell(hypot({reg[o["l"][0]["r"].I() - 1], reg[o["l"][1]["r"].I() - 1]}));
                else d = hyp<F>(o["l"], [&](const J& e) { return reg[e["r"].I() - 1]; });
            } else { using L = decltype(P() * V() + V()); d = hyp<L>(o["l"], [&](const J& e) { J e2 = e; e2.set("i", e["j"]); return par(e["c"]) * var(e) + var(e2); }); }
        } else if (op == "num") { F t((unsigned char)o["ord"].I(), VT(num(o["c"])), typename F::Storage::GradientType(), typename F::Storage::HessianType()); d = t;
        } else if (op == "init") { const F& s = reg[o["r0"].I() - 1]; F t; t.Init(dif, s(), s.D(), s.DD()); d = t; }
        else std::_Exit(3);
        long double S = 1; for (auto& f : o["S"].a) S *= f.i;
        return show(d, S);
    }
};
#if VPPART == 0
Machine* make0(const J& o) { return new Run<Arr<1>>(o); }
// distance in units of rounding of the built-in functions from their definitions
template <class FT> J std_case(const J& o) {
    using VP = VarPool<1, FT>; typedef long double LD;
    FT x0 = (FT)num(o["x"]); LD x = x0; typename VP::Var X(0, x0, 2); const std::string& f = o["fn"].S();
    LD v, d, h; ADVal<ADState<true, true, true>, typename VP::Storage> r;
#define FN(name, V0, D0, H0) if (f == #name) { r = make_shell(name(X)); v = V0; d = D0; h = H0; } else
    FN(exp, expl(x), expl(x), expl(x)) FN(expm1, expm1l(x), expl(x), expl(x)) FN(log, logl(x), 1 / x, -1 / x / x) FN(log1p, log1pl(x), 1 / (1 + x), -1 / (1 + x) / (1 + x))
    FN(sqrt, sqrtl(x), .5L / sqrtl(x), -.25L / sqrtl(x) / x) FN(cbrt, cbrtl(x), cbrtl(x) / x / 3, -2 * cbrtl(x) / x / x / 9)
    FN(sin, sinl(x), cosl(x), -sinl(x)) FN(cos, cosl(x), -sinl(x), -cosl(x)) FN(tan, tanl(x), 1 + tanl(x) * tanl(x), 2 * tanl(x) * (1 + tanl(x) * tanl(x)))
    FN(atan, atanl(x), 1 / (1 + x * x), -2 * x / (1 + x * x) / (1 + x * x)) FN(asin, asinl(x), 1 / sqrtl(1 - x * x), x / powl(1 - x * x, 1.5L)) FN(acos, acosl(x), -1 / sqrtl(1 - x * x), -x / powl(1 - x * x, 1.5L))
    FN(sinh, sinhl(x), coshl(x), sinhl(x)) FN(cosh, coshl(x), sinhl(x), coshl(x)) FN(tanh, tanhl(x), 1 / coshl(x) / coshl(x), -2 * tanhl(x) / coshl(x) / coshl(x))
    if (f == "pow") { FT q = (FT)num(o["q"]); LD Q = q; r = make_shell(pow(X, q)); v = powl(x, Q); d = Q * powl(x, Q - 1); h = Q * (Q - 1) * powl(x, Q - 2); }
    else if (f == "powx") { FT q = (FT)num(o["q"]); LD Q = q; r = make_shell(pow(q, X)); v = powl(Q, x); d = v * logl(Q); h = d * logl(Q); }
    else if (f == "powxx") { r = make_shell(pow(X, X)); v = powl(x, x); d = v * (logl(x) + 1); h = d * (logl(x) + 1) + v / x; }
    else if (f == "atan2") { FT q = (FT)num(o["q"]); LD Q = q, R = x * x + Q * Q; r = make_shell(atan2(X, typename VP::Param(q))); v = atan2l(x, Q); d = Q / R; h = -2 * Q * x / R / R; }
    else if (f == "hypot") { FT q = (FT)num(o["q"]); LD Q = q, R = sqrtl(x * x + Q * Q); r = make_shell(hypot({X + FT(0), X * FT(0) + q})); v = R; d = x / R; h = Q * Q / R / R / R; }
    else if (f == "hypot3") { FT q = (FT)num(o["q"]); LD Q = q, R = sqrtl(5 * x * x + Q * Q); r = make_shell(hypot({X + FT(0), X * FT(0) + q, FT(2) * X})); v = R; d = 5 * x / R; h = 5 * Q * Q / R / R / R; }
    else if (f == "hypot1") { r = make_shell(hypot({X + FT(0)})); v = fabsl(x); d = x < 0 ? -1 : 1; h = 0; }
    else if (f == "powi") { long q = o["q"][0].I() % 7 - 3; LD Q = q; r = make_shell(pow(X, q)); v = powl(x, Q); d = Q * powl(x, Q - 1); h = Q * (Q - 1) * powl(x, Q - 2); }
    else if (f == "rat") { FT q = (FT)num(o["q"]); LD Q = q, D = x * x + Q * Q + 1, N = x * x * x - Q, D1 = 2 * x, N1 = 3 * x * x, N2 = 6 * x;
        r = make_shell((X * X * X - q) / (sq(X) + (q * q + FT(1)))); v = N / D; d = (N1 - v * D1) / D; h = (N2 - 2 * d * D1 - 2 * v) / D; }
    else std::_Exit(3);
    auto u = [](LD a, LD b) { LD e = fabsl(a - b) / (std::numeric_limits<FT>::epsilon() * (fabsl(b) + 1)); return J(e < 1e6L ? (long long)std::ceil((double)e) : 1000000LL); };
    J uv = u(r(), v), ud = u(r.D()[0], d), uh = u(r.DD()(0, 0), h), in = J::arr();
    for (long long e : {uv.i, ud.i, uh.i}) in.push(e <= o["most"].i);
    return J::obj().set("v", uv).set("d", ud).set("h", uh).set("in", in).set("sum", uv.i + ud.i + uh.i);
}
int main(int argc, char** argv) {
    std::unique_ptr<Machine> m;
    return vp::run(argc, argv, [&](const J& o) -> J {
        const std::string& op = o["op"].S();
        if (op == "case") return J();
        if (op == "std") { const std::string& t = o["t"].S(); return t == "float" ? std_case<float>(o) : t == "double" ? std_case<double>(o) : std_case<long double>(o); }
        if (op == "start") {
            const std::string& s = o["st"].S();
            m.reset(s == "arr1" ? make0(o) : s == "arr2" ? make1(o) : s == "arr3" ? make2(o) : s == "sym3" ? make3(o) : s == "sym2" ? make4(o) : s == "ten2" ? make5(o) : s == "ten3" ? make6(o) : make7(o));
            return J();
        }
        return m->step(o);
    });
}
#elif VPPART == 1
Machine* make1(const J& o) { return new Run<Arr<2, double, ModelOps>>(o); }
#elif VPPART == 2
Machine* make2(const J& o) { return new Run<Arr<3, float>>(o); }
#elif VPPART == 3
Machine* make3(const J& o) { return new Run<Sym<3, double, ModelOps>>(o); }
#elif VPPART == 4
Machine* make4(const J& o) { return new Run<Sym<2>>(o); }
#elif VPPART == 5
Machine* make5(const J& o) { return new Run<Ten<2, double, ModelOps>>(o); }
#elif VPPART == 6
Machine* make6(const J& o) { return new Run<Ten<3>>(o); }
#elif VPPART == 7
Machine* make7(const J& o) { return new Run<Arr<4, long double>>(o); }
#endif
