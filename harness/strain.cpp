// Driver: hyperelasticity of anifem++/autodiff/cauchy_strain_*.h: invariants as functions and as differentiable objects.
#include "vp.hpp"
#include <algorithm>
#include <limits>
#include <memory>
#ifndef VPPART
#define VPPART 0
#endif
#if VPPART % 2
#include "anifem++/autodiff/autodiff.h"
#include "anifem++/autodiff/cauchy_strain_invariants.h"
#endif
#include "anifem++/autodiff/cauchy_strain_autodiff.h"
using namespace Ani;
using vp::J;
static const long long PRIME = 46337;
extern bool g_x;
static long double num(const J& o) { return (long double)o[0].i / o[1].i; }
static J whole(long double v) {
    if (!(v < 1e9L && v > -1e9L)) { g_x = false; return J(-2000000000LL); }
    long long n = std::llround(v); if (v != n) g_x = false; return J(n);
}
template <class FT> struct Base {
    using ST = PhysSymTensorStorageSet<3, FT>; using F = ADVal<ADState<true, true, true>, ST>;
    std::vector<F> reg; int dif = 0; double tol = 0; SymMtx3D<FT> E; std::array<FT, 3> f, s;
    // every object is made in two ways
    template <class I, class... A> I made(bool init, A... a) { if (!init) return I(dif, a...); I i; i.Init(dif, a...); return i; }
    template <class G> void with(const J& o, G g) {
        const std::string& k = o["k"].S(); bool w = o.has("w") && o["w"].I();
        if (k == "r") return g(reg[o["r"].I() - 1]);
        if (k == "I0") return g(made<Mech::I0fs<FT>>(w, f, s));
        if (k == "I1") return g(made<Mech::I1<FT>>(w, E));
        if (k == "I2") return g(made<Mech::I2<FT>>(w, E));
        if (k == "I3") return g(made<Mech::I3<FT>>(w, E));
        if (k == "I4") return g(made<Mech::I4fs<FT>>(w, E, f, s));
        if (k == "I4f") return g(made<Mech::I4fs<FT>>(w, E, f, f));
        if (k == "I5") return g(made<Mech::I5fs<FT>>(w, E, f, s));
        if (k == "I5f") return g(made<Mech::I5fs<FT>>(w, E, f, f));
        if (k == "J") return g(made<Mech::J<FT>>(w, E));
        std::_Exit(3);
    }
    J res(FT w, long double S) {
        long double v = (long double)w * S;
        if (!(v < 1e12L && v > -1e12L)) { g_x = false; return J(-2LL); }
        long long n = std::llround(v); if (fabsl(v - n) > tol) g_x = false;
        long long r = n % PRIME; return J(r < 0 ? r + PRIME : r);
    }
    static void ij(size_t k, size_t& i, size_t& j) { i = 0; size_t r = 3; while (k >= r) { k -= r; --r; ++i; } j = i + k; }
    J show(FT v, const SymMtx<3, FT>& D, const BiSymTensor4Rank<3, FT>& H, const J& fS) {
        long double S = 1; for (auto& x : fS.a) S *= x.i;
        J r = J::obj(), g = J::arr(), h = J::arr();
        size_t a, b, c, e;
        r.set("v", res(v, S));
        if (dif >= 1) for (size_t i = 0; i < 6; ++i) { ij(i, a, b); g.push(res(D(b, a), S)); }
        if (dif >= 2) for (size_t i = 0; i < 6; ++i) for (size_t j = i; j < 6; ++j) { ij(i, a, b); ij(j, c, e); h.push(res(H(b, a, c, e), S)); }
        return r.set("g", g).set("h", h).set("x", g_x);
    }
    J show(const F& y, const J& S) { return show(y(), dif >= 1 ? y.D() : SymMtx<3, FT>(), dif >= 2 ? y.DD() : BiSymTensor4Rank<3, FT>(), S); }
};
template <class FT> J fbin(Base<FT>& m, const J& o);   // a in the first half of the operands
template <class FT> J gbin(Base<FT>& m, const J& o);   // the rest
#if VPPART != 0
template <class F, class A, class B> void op(const std::string& f, A a, B b, F& d) {
    if (f == "add") d = make_shell(a + b);
    else if (f == "sub") d = make_shell(a - b);
    else if (f == "mul") d = make_shell(a * b);
    else if (f == "div") d = make_shell(a / b);
    else std::_Exit(3);
}
#if VPPART <= 3
template <class FT> J fbin(Base<FT>& m, const J& o) {
    typename Base<FT>::F d; const std::string& k = o["a"]["k"].S(); bool w = o["w"].I();
    auto go = [&](auto a) { m.with(o["b"], [&](auto b) { op(o["fn"].S(), a, b, d); }); };
    if (k == "r") go(m.reg[o["a"]["r"].I() - 1]);
    else if (k == "I0") go(m.template made<Mech::I0fs<FT>>(w, m.f, m.s));
    else if (k == "I1") go(m.template made<Mech::I1<FT>>(w, m.E));
    else if (k == "J") go(m.template made<Mech::J<FT>>(w, m.E));
    else std::_Exit(3);
    m.reg[o["d"].I() - 1] = d;
    return m.show(m.reg[o["d"].I() - 1], o["S"]);
}
#else
template <class FT> J gbin(Base<FT>& m, const J& o) {
    typename Base<FT>::F d; const std::string& k = o["a"]["k"].S(); bool w = o["w"].I();
    auto go = [&](auto a) { m.with(o["b"], [&](auto b) { op(o["fn"].S(), a, b, d); }); };
    if (k == "I2") go(m.template made<Mech::I2<FT>>(w, m.E));
    else if (k == "I3") go(m.template made<Mech::I3<FT>>(w, m.E));
    else if (k == "I4") go(m.template made<Mech::I4fs<FT>>(w, m.E, m.f, m.s));
    else if (k == "I5") go(m.template made<Mech::I5fs<FT>>(w, m.E, m.f, m.s));
    else std::_Exit(3);
    m.reg[o["d"].I() - 1] = d;
    return m.show(m.reg[o["d"].I() - 1], o["S"]);
}
#endif
#if VPPART == 1
template J fbin<float>(Base<float>&, const J&);
#elif VPPART == 2
template J fbin<double>(Base<double>&, const J&);
#elif VPPART == 3
template J fbin<long double>(Base<long double>&, const J&);
#elif VPPART == 4
template J gbin<float>(Base<float>&, const J&);
#elif VPPART == 5
template J gbin<double>(Base<double>&, const J&);
#else
template J gbin<long double>(Base<long double>&, const J&);
#endif
#else
bool g_x;
struct Machine { virtual ~Machine() {} virtual J step(const J& o) = 0; };
template <class FT> struct Run : Machine, Base<FT> {
    using Base<FT>::E; using Base<FT>::f; using Base<FT>::s; using Base<FT>::reg; using Base<FT>::dif; using F = typename Base<FT>::F;
    using S2 = SymMtx3D<FT>; using S4 = BiSym4Tensor3D<FT>; using M2 = Mtx3D<FT>;
    Run(const J& o) {
        reg.resize(o["regs"].I()); dif = o["dif"].I(); this->tol = o["tol"].i * 1e-6;
        for (int i = 0, k = 0; i < 3; ++i) for (int j = i; j < 3; ++j, ++k) E(i, j) = (FT(o["C"][k].i) - (i == j)) / 2;
        for (int i = 0; i < 3; ++i) f[i] = o["f"][i].i, s[i] = o["s"][i].i;
    }
    // the functions have several forms, h selects one
    J fn(const J& o) {
        const std::string& n = o["nm"].S(); int h = o["h"].I(); const J& S = o["S"];
        auto& t = n == "I4f" || n == "I5f" ? f : s;
        if (n == "I0") return this->show(h ? Mech::C_I0fs(E, f, s) : Mech::C_I0fs(f, s), h ? Mech::C_I0fs_dE(E, f, s) : Mech::C_I0fs_dE<FT>(), h ? Mech::C_I0fs_ddE(E, f, s) : Mech::C_I0fs_ddE<FT>(), S);
        if (n == "I1") return this->show(Mech::C_I1(E), h ? Mech::C_I1_dE(E) : Mech::C_I1_dE<FT>(), h ? Mech::C_I1_ddE(E) : Mech::C_I1_ddE<FT>(), S);
        if (n == "I2") return this->show(Mech::C_I2(E), Mech::C_I2_dE(E), h ? Mech::C_I2_ddE(E) : Mech::C_I2_ddE<FT>(), S);
        if (n == "I3") return this->show(Mech::C_I3(E), Mech::C_I3_dE(E), Mech::C_I3_ddE(E), S);
        if (n == "J") return this->show(Mech::C_J(E), Mech::C_J_dE(E), Mech::C_J_ddE(E), S);
        if (n == "I4" || n == "I4f") return this->show(Mech::C_I4fs(E, f, t), h ? Mech::C_I4fs_dE(E, f, t) : Mech::C_I4fs_dE(f, t), h == 0 ? Mech::C_I4fs_ddE<FT>() : h == 1 ? Mech::C_I4fs_ddE(f, t) : Mech::C_I4fs_ddE(E, f, t), S);
        if (n == "I5" || n == "I5f") return this->show(Mech::C_I5fs(E, f, t), Mech::C_I5fs_dE(E, f, t), h ? Mech::C_I5fs_ddE(E, f, t) : Mech::C_I5fs_ddE(f, t), S);
        std::_Exit(3);
    }
    J un(const J& o) {
        F d; const std::string& n = o["fn"].S(); FT c = o.has("c") ? (FT)num(o["c"]) : FT(); int q = o.has("q") ? o["q"].I() : 0;
        this->with(o["a"], [&](auto a) {
            if (n == "val") d = make_shell(a);
            else if (n == "neg") d = make_shell(-a);
            else if (n == "sq") d = make_shell(sq(a));
            else if (n == "pow") d = make_shell(pow(a, q));
            else if (n == "adn") d = make_shell(a + c);
            else if (n == "mun") d = make_shell(c * a);
            else if (n == "nov") d = make_shell(c / a);
            else std::_Exit(3);
        });
        reg[o["d"].I() - 1] = d;
        return this->show(reg[o["d"].I() - 1], o["S"]);
    }
    static J sym(const S2& a, int c) { J r = J::arr(); for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) r.push(whole((long double)a(j, i) * c)); return r; }
    static M2 mtx(const J& o, int sub) { M2 m; for (int i = 0; i < 9; ++i) m(i / 3, i % 3) = FT(o[i].i) - (i % 4 == 0 ? sub : 0); return m; }
    J kin(const J& o) {
        M2 A = mtx(o["F"], 0), U = mtx(o["F"], 1), K = mtx(o["K"], 0);
        return J::obj().set("e", sym(Mech::F_to_E(A), 2)).set("eu", sym(Mech::grU_to_E(U), 2)).set("de", sym(Mech::F_and_dF_to_dE(A, K), 2)).set("deu", sym(Mech::grU_and_dgrU_to_dE(U, K), 2)).set("x", g_x);
    }
    J stress(const J& o) {
        M2 U = mtx(o["F"], 1); S2 Y; S4 Z; J p = J::arr(), d = J::arr();
        for (int i = 0, k = 0; i < 3; ++i) for (int j = i; j < 3; ++j) Y(i, j) = o["Y"][k++].i;
        for (size_t c = 0; c < 21; ++c) { size_t a, b, e, g; size_t i = 0, q = c, n = 6; while (q >= n) { q -= n; --n; ++i; } Base<FT>::ij(i, a, b); Base<FT>::ij(i + q, e, g); Z(a, b, e, g) = o["Z"][c].i; }
        M2 P = Mech::S_to_P(U, Y); auto D = Mech::dS_to_dP(U, Y, Z);
        for (int i = 0; i < 9; ++i) p.push(whole(P(i / 3, i % 3)));
        for (int i = 0; i < 81; ++i) d.push(whole(D(i / 27, i / 9 % 3, i / 3 % 3, i % 3)));
        return J::obj().set("p", p).set("d", d).set("x", g_x);
    }
    J step(const J& o) override {
        g_x = true;
        const std::string& op = o["op"].S();
        if (op == "fn") return fn(o);
        if (op == "un") return un(o);
        if (op == "kin") return kin(o);
        if (op == "stress") return stress(o);
        if (op == "bin") { const std::string& k = o["a"]["k"].S(); return k == "r" || k == "I0" || k == "I1" || k == "J" ? fbin<FT>(*this, o) : gbin<FT>(*this, o); }
        std::_Exit(3);
    }
};
int main(int argc, char** argv) {
    std::unique_ptr<Machine> m;
    return vp::run(argc, argv, [&](const J& o) -> J {
        const std::string& op = o["op"].S();
        if (op == "case") return J();
        if (op == "start") {
            const std::string& t = o["t"].S();
            if (t == "float") m.reset(new Run<float>(o)); else if (t == "double") m.reset(new Run<double>(o)); else m.reset(new Run<long double>(o));
            return J();
        }
        return m->step(o);
    });
}
#endif
