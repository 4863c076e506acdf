// Driver: physical tensors (anifem++/autodiff/physical_tensors.h) of every kind, size and number type.
#include "vp.hpp"
#include <algorithm>
#include <limits>
#include <memory>
#include "anifem++/autodiff/physical_tensors.h"
using namespace Ani;
using vp::J;
#ifndef VPPART
#define VPPART 0
#endif
J go_f(const J&); J go_d(const J&); J go_l(const J&);
extern bool g_ok;
static const long long PRIME = 46337;
static J whole(long double v) {
    if (!(v < 1e9L && v > -1e9L)) { g_ok = false; return J(-2000000000LL); }
    long long n = std::llround(v);
    if (v != n) g_ok = false;
    return J(n);
}
static J res(long double v, double tol) {
    if (!(v < 1e12L && v > -1e12L)) { g_ok = false; return J(-2LL); }
    long long n = std::llround(v);
    if (fabsl(v - n) > tol) g_ok = false;
    long long r = n % PRIME;
    return J(r < 0 ? r + PRIME : r);
}
typedef std::array<std::size_t, 1> I1; typedef std::array<std::size_t, 2> I2; typedef std::array<std::size_t, 4> I4;
template <size_t R> using Tup = std::array<std::size_t, R>;
template <size_t R> Tup<R> tup(const J& o) { Tup<R> t; for (size_t k = 0; k < R; ++k) t[k] = o[k].I(); return t; }
template <size_t R, class F> void every(size_t N, F f) {
    Tup<R> t{}; size_t n = 1; for (size_t k = 0; k < R; ++k) n *= N;
    for (size_t q = 0; q < n; ++q) { size_t z = q; for (size_t k = R; k-- > 0;) { t[k] = z % N; z /= N; } f(t); }
}
// one description per kind: how its elements are reached in each of the ways the library offers
template <size_t N_, class FT> struct KArr {
    enum { N = N_, R = 1 }; typedef PhysArr<N, FT> T;
    static T make(const std::vector<FT>& v, int how) { std::array<FT, N> a; std::copy(v.begin(), v.end(), a.begin()); return how == 0 ? T(a) : T(std::move(a)); }
    static FT get(const T& t, Tup<1> i, int how) { return how == 0 ? t[i[0]] : t(I1{i[0]}); }
    static FT& ref(T& t, Tup<1> i, int how) { return how == 0 ? t[i[0]] : t(I1{i[0]}); }
    static Tup<1> idx(size_t c) { return {c}; }
    static size_t pos(Tup<1> i) { return i[0]; }
};
template <size_t N_, class FT> struct KMtx {
    enum { N = N_, R = 2 }; typedef PhysMtx<N, FT> T;
    static T make(const std::vector<FT>& v, int how) { std::array<FT, N * N> a; std::copy(v.begin(), v.end(), a.begin()); return how == 0 ? T(a) : how == 1 ? T(v.data()) : how == 2 ? T(a, false) : T(v.data(), false); }
    static FT get(const T& t, Tup<2> i, int how) { return how == 0 ? t(i[0], i[1]) : how == 1 ? t(I1{i[0]}, I1{i[1]}) : t(I2{i[0], i[1]}); }
    static FT& ref(T& t, Tup<2> i, int how) { return how == 0 ? t(i[0], i[1]) : how == 1 ? t(I1{i[0]}, I1{i[1]}) : t(I2{i[0], i[1]}); }
    static Tup<2> idx(size_t c) { return {c / N, c % N}; }
    static size_t pos(Tup<2> i) { return i[0] * N + i[1]; }
};
template <size_t N_, class FT> struct KTen {
    enum { N = N_, R = 4 }; typedef Tensor4Rank<N, FT> T;
    static T make(const std::vector<FT>& v, int) { std::array<FT, N * N * N * N> a; std::copy(v.begin(), v.end(), a.begin()); return T(a); }
    static FT get(const T& t, Tup<4> i, int how) { return how == 0 ? t(i[0], i[1], i[2], i[3]) : how == 1 ? t(I2{i[0], i[1]}, I2{i[2], i[3]}) : t(I4{i[0], i[1], i[2], i[3]}); }
    static FT& ref(T& t, Tup<4> i, int how) { return how == 0 ? t(i[0], i[1], i[2], i[3]) : how == 1 ? t(I2{i[0], i[1]}, I2{i[2], i[3]}) : t(I4{i[0], i[1], i[2], i[3]}); }
    static Tup<4> idx(size_t c) { return {c / N / N / N, c / N / N % N, c / N % N, c % N}; }
    static size_t pos(Tup<4> i) { return i[3] + N * (i[2] + N * (i[1] + N * i[0])); }
};
template <size_t N_, class FT> struct KSym {
    enum { N = N_, R = 2 }; typedef SymMtx<N, FT> T; typedef typename T::Index X;
    static T make(const std::vector<FT>& v, int how) { std::array<FT, N * (N + 1) / 2> a; std::copy(v.begin(), v.end(), a.begin()); return how == 0 ? T(a) : how == 1 ? T(a, true) : T(a, false); }
    static FT get(const T& t, Tup<2> i, int how) { return how == 0 ? t(i[0], i[1]) : how == 1 ? t(I1{i[0]}, I1{i[1]}) : how == 2 ? t(I2{i[0], i[1]}) : t[X(i[0], i[1])]; }
    static FT& ref(T& t, Tup<2> i, int how) { return how == 0 ? t(i[0], i[1]) : how == 1 ? t(I1{i[0]}, I1{i[1]}) : how == 2 ? t(I2{i[0], i[1]}) : t[X(i[0], i[1])]; }
    static Tup<2> idx(size_t c) { X x = T::index(c); if (x[0] != x.i || x[1] != x.j || !(x == X(x.j, x.i))) g_ok = false; return {x.i, x.j}; }
    static size_t pos(Tup<2> i) { return T::continuous_index(X(i[0], i[1])); }
};
template <class T> Tup<4> four(typename T::Index x) { if (x[0] != x.i || x[1] != x.j || x[2] != x.k || x[3] != x.l) g_ok = false; return {x.i, x.j, x.k, x.l}; }
template <size_t N_, class FT> struct KSymTen {
    enum { N = N_, R = 4 }; typedef SymTensor4Rank<N, FT> T; typedef typename T::Index X;
    static T make(const std::vector<FT>& v, int) { std::array<FT, N * N * (N * N + 1) / 2> a; std::copy(v.begin(), v.end(), a.begin()); return T(a); }
    static FT get(const T& t, Tup<4> i, int how) { return how == 0 ? t(i[0], i[1], i[2], i[3]) : how == 1 ? t(I2{i[0], i[1]}, I2{i[2], i[3]}) : how == 2 ? t(I4{i[0], i[1], i[2], i[3]}) : t[X(i[0], i[1], i[2], i[3])]; }
    static FT& ref(T& t, Tup<4> i, int how) { return how == 0 ? t(i[0], i[1], i[2], i[3]) : how == 1 ? t(I2{i[0], i[1]}, I2{i[2], i[3]}) : how == 2 ? t(I4{i[0], i[1], i[2], i[3]}) : t[X(i[0], i[1], i[2], i[3])]; }
    static Tup<4> idx(size_t c) { X x = T::index(c); if (!(x == X(x.k, x.l, x.i, x.j))) g_ok = false; return four<T>(x); }
    static size_t pos(Tup<4> i) { return T::continuous_index(X(i[0], i[1], i[2], i[3])); }
};
template <size_t N_, class FT> struct KBiSym {
    enum { N = N_, R = 4, M = N * (N + 1) / 2 }; typedef BiSymTensor4Rank<N, FT> T; typedef typename T::Index X;
    static T make(const std::vector<FT>& v, int) { std::array<FT, M * (M + 1) / 2> a; std::copy(v.begin(), v.end(), a.begin()); return T(a); }
    static FT get(const T& t, Tup<4> i, int how) { return how == 0 ? t(i[0], i[1], i[2], i[3]) : how == 1 ? t(I2{i[0], i[1]}, I2{i[2], i[3]}) : how == 2 ? t(I4{i[0], i[1], i[2], i[3]}) : t[X(i[0], i[1], i[2], i[3])]; }
    static FT& ref(T& t, Tup<4> i, int how) { return how == 0 ? t(i[0], i[1], i[2], i[3]) : how == 1 ? t(I2{i[0], i[1]}, I2{i[2], i[3]}) : how == 2 ? t(I4{i[0], i[1], i[2], i[3]}) : t[X(i[0], i[1], i[2], i[3])]; }
    static Tup<4> idx(size_t c) { X x = T::index(c); if (!(x == X(x.k, x.l, x.j, x.i))) g_ok = false; return four<T>(x); }
    static size_t pos(Tup<4> i) { return T::continuous_index(X(i[0], i[1], i[2], i[3])); }
};
#if VPPART == 0
bool g_ok;
int main(int argc, char** argv) {
    return vp::run(argc, argv, [](const J& op) -> J {
        if (op["op"].S() == "case") return J();
        g_ok = true;
        const std::string& t = op["t"].S();
        return t == "float" ? go_f(op) : t == "double" ? go_d(op) : go_l(op);
    });
}
#else
#if VPPART == 1
typedef float FT;
#define GO go_f
#elif VPPART == 2
typedef double FT;
#define GO go_d
#else
typedef long double FT;
#define GO go_l
#endif
typedef std::vector<FT> V;
namespace {    // every part has its own copy: the templates below depend on FT
static FT sc(FT v, int e) { return std::ldexp(v, e); }
static V data(const J& a, int e = 0) { V v; for (auto& x : a.a) v.push_back(sc((FT)x.i, e)); return v; }
template <class T> J flat(const T& t) { J v = J::arr(); for (size_t c = 0; c < t.continuous_size(); ++c) v.push(whole(t[c])); return v; }
template <class K> J full(const typename K::T& t, int how) { J v = J::arr(); every<K::R>(K::N, [&](Tup<K::R> i) { v.push(whole(K::get(t, i, how))); }); return v; }
template <class T> struct HasIdx { template <class U> static char f(decltype(std::declval<U>().begin().index())*); template <class U> static long f(...); enum { v = sizeof(f<T>(0)) == 1 }; };
template <class T, bool b> struct ItIdx { static void go(T&, J&) {} };
template <class T> struct ItIdx<T, true> {
    template <class X> static J t(X x, size_t n) { J v = J::arr(); for (size_t k = 0; k < n; ++k) v.push(x[k]); return v; }
    static void go(T& a, J& out) {
        size_t R = a.rank(); const T& c = a; size_t q = 0;
        for (auto it = a.begin(); it != a.end(); ++it, ++q) {
            out.push(t(it.index(), R)); if (it.continuous_index() != q || it.operator->() != &*it) g_ok = false;
        }
        q = 0; for (auto it = c.begin(); it < c.end(); it++, ++q) if (*it != a[q] || &*it != &*(c.cbegin() + q) || !(it <= c.end()) || it >= c.end() || it > c.cend()) g_ok = false;
        if (q != a.continuous_size()) g_ok = false;
        auto e = a.end(); for (q = a.continuous_size(); q-- > 0;) { auto f = e--; if (!(f > e) || f - e != 1 || e - f != -1 || !(e + 1 == f) || !(f - 1 == e) || !(1 + e == f) || &f[-1] != &*e) g_ok = false; }
        if (!(e == a.begin())) g_ok = false;
    }
};
template <class K> J index(const J& o) {
    J r = J::obj(); V d = data(o["a"]); typename K::T a = K::make(d, 0), b;
    J idx = J::arr(), dup = J::arr(), pos = J::arr(), at = J::arr(), it = J::arr(), zero = J::arr();
    size_t n = a.continuous_size();
    for (size_t c = 0; c < n; ++c) { J t = J::arr(); for (auto x : K::idx(c)) t.push((int)x); idx.push(t); dup.push(a.index_duplication(c)); zero.push(whole(b[c])); }
    every<K::R>(K::N, [&](Tup<K::R> i) { pos.push(K::pos(i)); });
    ItIdx<typename K::T, HasIdx<typename K::T>::v>::go(a, it);
    for (size_t c = 0; c < n; ++c) { auto i = a.begin(); i += c; at.push(whole(c % 2 ? i[0] : a.end()[(long)c - (long)n])); if (&*i != &a.begin()[c] || i - a.begin() != (long)c) g_ok = false; }
    return r.set("rank", a.rank()).set("size", n).set("idx", idx).set("dup", dup).set("pos", pos).set("at", at).set("it", it).set("dist", (long long)(a.end() - a.begin())).set("zero", zero);
}
template <class K> J fill(const J& o) {
    typename K::T a = K::make(data(o["a"]), o["how"].I()); J r = J::obj();
    return r.set("flat", flat(a)).set("full", full<K>(a, o["g"].I()));
}
template <class K> J put(const J& o) {
    typename K::T a = K::make(data(o["a"]), 0); J r = J::obj();
    for (auto& w : o["w"].a) K::ref(a, tup<K::R>(w["i"]), w["g"].I()) = (FT)w["v"].i;
    return r.set("flat", flat(a)).set("full", full<K>(a, o["g"].I()));
}
template <class K> J lin(const J& o) {
    typedef typename K::T T; std::vector<T> x; for (auto& f : o["x"].a) x.push_back(K::make(data(f), 0));
    for (auto& s : o["s"].a) {
        const std::string& f = s["f"].S(); T& d = x[s["d"].I()]; const T& b = x[s["b"].I()]; FT c = (FT)s["c"].i; const T a = d; T* p = nullptr;
        if (f == "add") d = a + b; else if (f == "sub") d = a - b; else if (f == "neg") d = -a;
        else if (f == "ade") p = &(d += T(b)); else if (f == "sbe") p = &(d -= T(b)); else if (f == "mle") p = &(d *= c); else if (f == "dve") p = &(d /= c);
        else if (f == "mur") d = a * c; else if (f == "mul") d = c * a; else if (f == "div") d = a / c; else if (f == "cpy") d = b;
        else std::_Exit(3);
        if (p && p != &d) g_ok = false;
    }
    J r = J::arr(); for (auto& t : x) r.push(flat(t));
    return J::obj().set("y", r);
}
template <class K> J norm(const J& o) {
    const typename K::T a = K::make(data(o["a"]), 0), b = K::make(data(o["b"]), 0);
    return J::obj().set("f", whole(a.SquareFrobNorm())).set("d", whole(a.Dot(b))).set("e", whole(b.Dot(a)));
}
template <size_t N, class M> J adj(const M&, int, std::false_type) { return J::arr(); }
template <size_t N, class M> J adj(const M& a, int e, std::true_type) { J v = J::arr(); auto r = a.Adj(); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) v.push(whole(sc(r(i, j), -2 * e))); return v; }
template <class K> J mat(const J& o) {
    enum { N = K::N }; int e = o["ea"].I(); double tol = o["tol"].i * 1e-6;
    const typename K::T a = K::make(data(o["a"], e), 0), b = K::make(data(o["b"]), 0);
    std::array<FT, N> v; V dv = data(o["v"]), dw = data(o["w"]); std::copy(dv.begin(), dv.end(), v.begin());
    PhysArr<N, FT> pv(v), pw; for (size_t i = 0; i < N; ++i) pw[i] = dw[i];
    long double S = 1; for (auto& f : o["S"].a) S *= f.i;
    J r = J::obj(), m = J::arr(), m2 = J::arr(), X = J::arr();
    r.set("tr", whole(sc(a.Trace(), -e))).set("det", res(sc(a.Det(), -(int)N * e), tol));
    for (FT x : a.Mul(v)) m.push(whole(sc(x, -e)));
    for (FT x : a.Mul(pw)) m2.push(whole(sc(x, -e)));
    if (S != 0) { auto y = a.Inv(); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) X.push(res(sc(y(i, j), e) * S, tol)); }
    J pr = J::arr(), tp = J::arr(); auto p = a * b; auto t = a.Transpose();
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) pr.push(whole(sc(p(i, j), -e))), tp.push(whole(sc(t(i, j), -e)));
    return r.set("mv", m).set("mw", m2).set("X", X).set("dot", whole(sc(a.Dot(pv, pw), -e))).set("pr", pr).set("tp", tp).set("adj", adj<N>(a, e, std::integral_constant<bool, N == 3>()));
}
template <size_t N> J mixed(const J& o) {
    typedef KMtx<N, FT> A; typedef KSym<N, FT> B; J r = J::obj();
    const typename A::T a = A::make(data(o["a"]), 0); const typename B::T b = B::make(data(o["b"]), 0);
    r.set("apb", full<A>(a + b, 0)).set("bpa", full<A>(b + a, 0)).set("amb", full<A>(a - b, 0)).set("bma", full<A>(b - a, 0));
    r.set("ab", full<A>(a * b, 0)).set("ba", full<A>(b * a, 0)).set("m", full<A>(typename A::T(b), 0)).set("sym2", full<B>((a + a).Sym(), 0));
    r.set("ida", full<A>(A::T::Identity((FT)o["c"].i), 0)).set("idb", full<B>(B::T::Identity((FT)o["c"].i), 0)).set("id1", full<B>(B::T::Identity(), 0));
    return r;
}
template <class K, class S> J outer(const J& o) {
    const typename S::T f = S::make(data(o["f"]), 0), s = S::make(data(o["s"]), 0);
    return J::obj().set("sq", flat(K::T::TensorSquare(s))).set("sm", flat(K::T::TensorSymMul2(f, s)));
}
template <class T, class F> J conv(const J& o) {
    const typename F::T a = F::make(data(o["a"]), 0);
    return J::obj().set("flat", flat(tensor_convert<typename T::T>(a))).set("same", flat(tensor_convert<typename F::T>(a)));
}
template <size_t N> J convs(const J& o) {
    const std::string f = o["kind"].S(), t = o["to"].S(); const std::string k = f + ">" + t;
    enum { M = N * (N + 1) / 2 };
    if (k == "mtx>sym") return conv<KSym<N, FT>, KMtx<N, FT>>(o);
    if (k == "sym>mtx") return conv<KMtx<N, FT>, KSym<N, FT>>(o);
    if (k == "mtx>arr") return conv<KArr<N * N, FT>, KMtx<N, FT>>(o);
    if (k == "arr>mtx") return conv<KMtx<N, FT>, KArr<N * N, FT>>(o);
    if (k == "sym>arr") return conv<KArr<N * N, FT>, KSym<N, FT>>(o);
    if (k == "arr>sym") return conv<KSym<N, FT>, KArr<N * N, FT>>(o);
    if (k == "sym>pack") return conv<KArr<M, FT>, KSym<N, FT>>(o);
    if (k == "pack>sym") return conv<KSym<N, FT>, KArr<M, FT>>(o);
    if (k == "symten>ten") return conv<KTen<N, FT>, KSymTen<N, FT>>(o);
    if (k == "ten>symten") return conv<KSymTen<N, FT>, KTen<N, FT>>(o);
    if (k == "bisym>ten") return conv<KTen<N, FT>, KBiSym<N, FT>>(o);
    if (k == "ten>bisym") return conv<KBiSym<N, FT>, KTen<N, FT>>(o);
    if (k == "bisym>symten") return conv<KSymTen<N, FT>, KBiSym<N, FT>>(o);
    if (k == "symten>bisym") return conv<KBiSym<N, FT>, KSymTen<N, FT>>(o);
    if (k == "bisym>voigt") return conv<KSym<M, FT>, KBiSym<N, FT>>(o);
    if (k == "voigt>bisym") return conv<KBiSym<N, FT>, KSym<M, FT>>(o);
    if (k == "ten>pack") return conv<KArr<N * N * N * N, FT>, KTen<N, FT>>(o);
    if (k == "pack>ten") return conv<KTen<N, FT>, KArr<N * N * N * N, FT>>(o);
    if (k == "symten>pack") return conv<KArr<N * N * (N * N + 1) / 2, FT>, KSymTen<N, FT>>(o);
    if (k == "pack>symten") return conv<KSymTen<N, FT>, KArr<N * N * (N * N + 1) / 2, FT>>(o);
    if (k == "bisym>pack") return conv<KArr<M * (M + 1) / 2, FT>, KBiSym<N, FT>>(o);
    if (k == "pack>bisym") return conv<KBiSym<N, FT>, KArr<M * (M + 1) / 2, FT>>(o);
    std::_Exit(3);
}
template <class K> J common(const J& o) {
    const std::string& op = o["op"].S();
    if (op == "index") return index<K>(o);
    if (op == "fill") return fill<K>(o);
    if (op == "put") return put<K>(o);
    if (op == "lin") return lin<K>(o);
    if (op == "norm") return norm<K>(o);
    std::_Exit(3);
}
template <size_t N> J sized4(const J& o) {
    const std::string &op = o["op"].S(), &k = o["kind"].S();
    if (op == "conv") return convs<N>(o);
    if (op == "outer") {
        const std::string& s = o["of"].S();
        if (k == "ten") return s == "mtx" ? outer<KTen<N, FT>, KMtx<N, FT>>(o) : outer<KTen<N, FT>, KSym<N, FT>>(o);
        if (k == "symten") return s == "mtx" ? outer<KSymTen<N, FT>, KMtx<N, FT>>(o) : outer<KSymTen<N, FT>, KSym<N, FT>>(o);
        return outer<KBiSym<N, FT>, KSym<N, FT>>(o);
    }
    if (k == "ten") return common<KTen<N, FT>>(o);
    if (k == "symten") return common<KSymTen<N, FT>>(o);
    return common<KBiSym<N, FT>>(o);
}
template <size_t N> J sized(const J& o) {
    const std::string &op = o["op"].S(), &k = o["kind"].S();
    if (op == "mixed") return mixed<N>(o);
    if (op == "mat") return k == "mtx" ? mat<KMtx<N, FT>>(o) : mat<KSym<N, FT>>(o);
    if (op == "outer") return k == "mtx" ? outer<KMtx<N, FT>, KArr<N, FT>>(o) : outer<KSym<N, FT>, KArr<N, FT>>(o);
    if (k == "arr") return common<KArr<N, FT>>(o);
    if (k == "mtx") return common<KMtx<N, FT>>(o);
    return common<KSym<N, FT>>(o);
}
static J by(const J& o) {
    const std::string &op = o["op"].S(), &k = o["kind"].S(); int N = o["N"].I();
    if (op == "ident4") return J::obj().set("full", full<KBiSym<3, FT>>(BiSymTensor4Rank<3, FT>::Identity((FT)o["c"].i), 0));
    if (op == "conv" || k == "ten" || k == "symten" || k == "bisym") {
        if (N == 2) return sized4<2>(o);
        if (N == 3) return sized4<3>(o);
        if (N == 4) return sized4<4>(o);
        if (N == 1 && op != "conv") { if (k == "ten") return common<KTen<1, FT>>(o); if (k == "symten") return common<KSymTen<1, FT>>(o); return common<KBiSym<1, FT>>(o); }
        std::_Exit(3);
    }
    switch (N) { case 1: return sized<1>(o); case 2: return sized<2>(o); case 3: return sized<3>(o); case 4: return sized<4>(o); case 5: return sized<5>(o); }
    std::_Exit(3);
}
}
J GO(const J& o) { J r = by(o); return r.set("x", g_ok); }
#endif
