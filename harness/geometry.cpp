// Driver: vectors, tetrahedra, dense linear algebra of anifem++/fem/geometry.h and barycentric coordinates.
#include "vp.hpp"
#include <memory>
#include <cfloat>
#include <limits>
#include "anifem++/fem/geometry.h"
#ifndef NO_BARY
#include "anifem++/fem/operations/operations.h"
#endif
using namespace Ani;
using vp::J;
static const long long PRIME = 46337;
static bool g_ok;
static double g_tol;
static J res(long double v) {
    if (!(v < 1e12L && v > -1e12L)) { g_ok = false; return J(-2LL); }
    long long n = std::llround(v);
    if (fabsl(v - n) > g_tol) g_ok = false;
    long long r = n % PRIME;
    return J(r < 0 ? r + PRIME : r);
}
static J whole(long double v) {
    if (!(v < 1e9L && v > -1e9L)) { g_ok = false; return J(-2000000000LL); }
    long long n = std::llround(v);
    if (fabsl(v - n) > g_tol) g_ok = false;
    return J(n);
}
static J fix(long double v) { if (!(v < 9e5L && v > -9e5L)) return J(2000000000LL); return J((long long)std::llround(v * 2048)); }
static J units(long double v) { if (!(v < 1e9L)) return J(1000000000LL); return J((long long)std::ceil((double)v)); }
template <class T> struct Run {
    using V = std::vector<T>;
    const J& o; J r = J::obj(); bool kept = true;
    int ea = 0, eb = 0; long double S = 1;
    Run(const J& o) : o(o) {
        if (o.has("ea")) ea = o["ea"].I();
        if (o.has("eb")) eb = o["eb"].I();
        if (o.has("S")) for (auto& x : o["S"].a) S *= x.i;
    }
    static long double sc(long double x, int e) { return std::ldexp(x, e); }
    V mat(const char* f, int e) { V v; for (auto& x : o[f].a) v.push_back((T)std::ldexp((double)x.i, e)); return v; }
    V pt(const J& x) { V v; for (auto& c : x.a) v.push_back((T)std::ldexp((double)c.i, ea)); return v; }
    J outs(const V& x, int e) { J v = J::arr(); for (T c : x) v.push(res(sc((long double)c * S, e))); return v; }
    J ints(const V& x, int e) { J v = J::arr(); for (T c : x) v.push(whole(sc((long double)c, e))); return v; }
    static V garbage(size_t n) { return V(n, std::numeric_limits<T>::quiet_NaN()); }
    void keep(const V& a, const V& b) { if (a != b) kept = false; }
    template <class P> J normal(const P* n, T area, J* a2) {
        J v = J::arr(); for (int k = 0; k < 3; ++k) v.push(whole(sc((long double)n[k] * 2 * area, -2 * ea)));
        if (a2) *a2 = whole(sc((long double)area * area * 4, -4 * ea));
        return v;
    }
    template <class TT> void tetra(std::vector<V>& x) {
        Tetra<TT> t(x[0].data(), x[1].data(), x[2].data(), x[3].data());
        auto c = t.centroid(); J cc = J::arr(); for (int k = 0; k < 3; ++k) cc.push(whole(sc((long double)c[k] * 4, -ea)));
        T d = t.diameter(); r.set("c4", cc).set("d2", whole(sc((long double)d * d, -2 * ea)));
        J nd = J::arr(), nn = J::arr();
        for (int i = 0; i < 4; ++i) {
            auto n = t.normal_direction(i); J v = J::arr(); for (int k = 0; k < 3; ++k) v.push(whole(sc((long double)n[k], -2 * ea)));
            nd.push(v);
            auto m = t.normal(i);
            T len = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
            nn.push(normal(m.data(), len / 2, nullptr));
        }
        r.set("nd", nd).set("n", nn);
    }
    J go() {
        const std::string& op = o["op"].S();
        if (op == "inv3") {
            V A = mat("A", ea), B = A, X = garbage(9);
            T d = inverse3x3(A.data(), X.data()); keep(A, B);
            r.set("det", res(sc((long double)d, -3 * ea))).set("X", outs(X, ea));
        } else if (op == "cross" || op == "cross3" || op == "area" || op == "fnormal") {
            std::vector<V> p; for (auto& x : o["p"].a) p.push_back(pt(x));
            auto p0 = p; V n = garbage(3); J a2;
            if (op == "cross") { cross(p[0].data(), p[1].data(), n.data()); r.set("n", ints(n, -2 * ea)); }
            else if (op == "cross3") { cross(p[0].data(), p[1].data(), p[2].data(), n.data()); r.set("n", ints(n, -2 * ea)); }
            else if (op == "area") { T a = tri_area(p[0].data(), p[1].data(), p[2].data()); r.set("a2", whole(sc((long double)a * a * 4, -4 * ea))); }
            else { T a = face_normal(p[0].data(), p[1].data(), p[2].data(), p[3].data(), n.data()); r.set("n", normal(n.data(), a, &a2)); r.set("a2", a2); }
            if (p != p0) kept = false;
        } else if (op == "tetra") {
            std::vector<V> p; for (auto& x : o["T"].a) p.push_back(pt(x));
            auto p0 = p;
            if (o["c"].B()) tetra<const T>(p); else tetra<T>(p);
            if (p != p0) kept = false;
#ifndef NO_BARY
        } else if (op == "bary") {
            std::vector<V> p; for (auto& x : o["T"].a) p.push_back(pt(x));
            V X; for (auto& x : o["X"].a) { V y = pt(x); X.insert(X.end(), y.begin(), y.end()); }
            size_t n = o["X"].size(); V L = garbage(4 * n);
            if (o["psi"].B()) {
                V Q(9), Pm(9), P0; for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) Q[i + 3 * j] = p[j + 1][i] - p[0][i];
                inverse3x3(Q.data(), Pm.data()); P0 = Pm;
                getBaryCoord<T>(p[0].data(), p[1].data(), p[2].data(), p[3].data(), ArrayView<const T>(X.data(), X.size()), ArrayView<T>(L.data(), L.size()), ArrayView<T>(Pm.data(), 9));
                keep(Pm, P0);
            } else getBaryCoord<T>(p[0].data(), p[1].data(), p[2].data(), p[3].data(), ArrayView<const T>(X.data(), X.size()), ArrayView<T>(L.data(), L.size()));
            J b = J::arr(); for (size_t k = 0; k < n; ++k) { J v = J::arr(); for (int i = 0; i < 4; ++i) v.push(res((long double)L[4 * k + i] * S)); b.push(v); }
            r.set("b", b);
#endif
        } else if (op == "chol" || op == "cholinv") {
            int N = o["N"].I(); bool inv = op == "cholinv"; int M = inv ? N : o["M"].I();
            V A = mat("A", ea), A0 = A, B, X = garbage(N * M), mem = garbage(N * (N + 1) / 2), B0;
            if (!inv) { B = mat("B", eb); B0 = B; if (o["xb"].B()) X = B; }
            bool am = o["am"].B();
            T* m = am ? A.data() : mem.data();
            bool refused = false;
            try {
                if (inv) cholesky_inverse(A.data(), X.data(), N, m);
                else cholesky_solve(A.data(), o["xb"].B() ? X.data() : B.data(), N, M, X.data(), m);
            } catch (const std::exception&) { refused = true; }
            if (!am) keep(A, A0);
            keep(B, B0);
            r.set("refused", refused);
            if (!refused) r.set("X", outs(X, inv ? ea : ea - eb)); else r.set("X", J::arr());
        } else if (op == "lusolve" || op == "luinv" || op == "lupsolve") {
            int N = o["N"].I(); bool inv = op == "luinv"; int M = inv ? N : o["M"].I();
            V A = mat("A", ea), A0 = A, B, B0, X = garbage(N * M), mem = garbage(N * (N + M));
            std::vector<int> im(2 * N, -77);
            if (!inv) { B = mat("B", eb); B0 = B; }
            if (inv) {
                if (o["xa"].B()) { fullPivLU_inverse(A.data(), A.data(), N, mem.data(), im.data()); X = A; }
                else { fullPivLU_inverse(A.data(), X.data(), N, mem.data(), im.data()); keep(A, A0); }
            } else if (op == "lusolve") {
                if (o["xb"].B()) { X = B; fullPivLU_solve(A.data(), X.data(), N, M, X.data(), mem.data(), im.data()); }
                else { fullPivLU_solve(A.data(), B.data(), N, M, X.data(), mem.data(), im.data()); keep(B, B0); }
                keep(A, A0);
            } else {
                std::vector<int> p(N), q(N); for (int i = 0; i < N; ++i) p[i] = q[i] = i;
                fullPivLU(A.data(), N, p.data(), q.data());
                V LUc = A; auto p0 = p, q0 = q;
                LU_solve(A.data(), N, p.data(), q.data(), B.data(), X.data(), M);
                keep(A, LUc); if (p != p0 || q != q0) kept = false;
            }
            r.set("X", outs(X, inv ? ea : ea - eb));
        } else if (op == "lu") {
            int N = o["N"].I();
            V A = mat("A", ea); auto re = o["re"].ints();
            for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) A[i + j * N] = std::ldexp(A[i + j * N], re[i]);
            auto p = o["p"].ints(), q = o["q"].ints(); auto pi = p;
            fullPivLU(A.data(), N, p.data(), q.data());
            J jp = J::arr(), jq = J::arr(), LU = J::arr(), L = J::arr(), U = J::arr();
            std::vector<long double> C(N * N);
            for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
                long double s = 0; int row = 0; for (int k = 0; k < N; ++k) if (pi[k] == p[i]) row = k;
                for (int k = 0; k <= std::min(i, j); ++k) s += (k == i ? 1.0L : (long double)A[i + k * N]) * A[k + j * N];
                C[i + j * N] = sc(s, -ea - re[row]);
            }
            for (auto c : C) LU.push(res(c));
            for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
                if (j < i) L.push(fix(std::fabs((long double)A[i + j * N])));
                else if (A[i + i * N] != 0) U.push(fix(std::fabs((long double)A[i + j * N] / A[i + i * N])));
                else U.push(A[i + j * N] == 0 ? J(0) : J(2000000000LL));
            }
            for (int i = 0; i < N; ++i) jp.push(p[i]), jq.push(q[i]);
            r.set("p", jp).set("q", jq).set("LU", LU).set("L", L).set("U", U);
        } else if (op == "qr") {
            int N = o["N"].I(), M = o["M"].I();
            V A = mat("A", ea), A0 = A, Q = garbage(N * N), R = garbage(M * M), mem = garbage(N * M + N + M);
            householderQR(A.data(), N, M, Q.data(), R.data(), mem.data()); keep(A, A0);
            bool up = true; J jq = J::arr(), jr = J::arr(); long double rs = 0, na = 0;
            for (int j = 0; j < M; ++j) for (int i = j + 1; i < M; ++i) if (R[i + j * M] != 0) up = false;
            for (T x : Q) jq.push(fix(x));
            for (T x : R) jr.push(fix(sc(x, -ea)));
            for (T x : A) na = std::max(na, fabsl((long double)x));
            for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) { long double s = -(long double)A[i + j * N]; for (int k = 0; k < M; ++k) s += (long double)Q[i + k * N] * R[k + j * M]; if (!(fabsl(s) <= rs)) rs = fabsl(s); }
            r.set("upper", up).set("Q", jq).set("R", jr).set("qq", ortho(Q, N)).set("res", rs == 0 ? J(0) : units(rs / na / std::numeric_limits<T>::epsilon()));
        } else if (op == "svd") {
            int N = o["N"].I(), M = o["M"].I(), K = std::min(N, M); bool u = o["u"].B(), w = o["v"].B();
            V A = mat("A", ea), A0 = A, U = garbage(u ? N * N : 0), Vv = garbage(w ? M * M : 0), s = garbage(K), mem = garbage(2 * K * K + K);
            int code = jacobiSVD(A.data(), N, M, u ? U.data() : (T*)nullptr, s.data(), w ? Vv.data() : (T*)nullptr, mem.data()); keep(A, A0);
            bool desc = true; J js = J::arr(), je = J::arr(), ju = J::arr(), jv = J::arr();
            for (int i = 0; i < K; ++i) { if (!(s[i] >= 0) || (i && !(s[i] <= s[i - 1]))) desc = false; js.push(fix(sc(s[i], -ea))); }
            std::vector<long double> e(K + 1, 0); e[0] = 1;
            for (int i = 0; i < K; ++i) { long double x = sc(s[i], -ea); x *= x; for (int k = K; k >= 1; --k) e[k] += e[k - 1] * x; }
            for (int k = 1; k <= K; ++k) je.push(res(e[k]));
            for (T x : U) ju.push(fix(x));
            for (T x : Vv) jv.push(fix(x));
            long double rs = 0;
            if (u && w) for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) { long double t = -(long double)A[i + j * N]; for (int k = 0; k < K; ++k) t += (long double)U[i + k * N] * s[k] * Vv[j + k * M]; if (!(fabsl(t) <= rs)) rs = fabsl(t); }
            r.set("code", code).set("desc", desc).set("s", js).set("e", je).set("U", ju).set("V", jv);
            r.set("uu", u ? ortho(U, N) : J(0)).set("vv", w ? ortho(Vv, M) : J(0));
            r.set("res", rs == 0 ? J(0) : units(rs / s[0] / std::sqrt(std::numeric_limits<T>::epsilon())));
        } else std::_Exit(3);
        r.set("kept", kept).set("x", g_ok);
        return r;
    }
    static J ortho(const V& Q, int n) {
        long double m = 0;
        for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) { long double s = a == b ? -1 : 0; for (int i = 0; i < n; ++i) s += (long double)Q[i + a * n] * Q[i + b * n]; if (!(fabsl(s) <= m)) m = fabsl(s); }
        if (m != m) return J(1000000000LL);
        return units(m / std::numeric_limits<T>::epsilon());
    }
};
int main(int argc, char** argv) {
    return vp::run(argc, argv, [](const J& op) -> J {
        if (op["op"].S() == "case") return J();
        g_ok = true;
        const std::string& t = op["t"].S();
        g_tol = t == "float" ? 0.05 : 1e-3;
        if (t == "float") return Run<float>(op).go();
        if (t == "double") return Run<double>(op).go();
        std::_Exit(3);
    });
}
