// Driver: views on external memory (ArrayView, DenseMatrix, BandDenseMatrix[X], MemoryLegacy).
#include "vp.hpp"
#include <memory>
#include <iostream>
#include "anifem++/fem/fem_memory.h"
using namespace Ani;
static const double U = 4096;
static bool ok = true;
static vp::J q(double x) { return vp::J(vp::qround(x, U, 1e-9, ok)); }
template <class R> std::vector<R>& heap() { static std::vector<R> v; return v; }
template <class R> vp::J dump() { vp::J a = vp::J::arr(); for (R x : heap<R>()) a.push(q(x)); return a; }
static bool roomy = false;   // a matrix may lie in front of a larger piece of memory than it needs
template <class R> DenseMatrix<R> mx(const vp::J& v) {
    if (roomy) return DenseMatrix<R>(heap<R>().data() + v[0].I(), v[1].I(), v[2].I(), heap<R>().size() - v[0].I());
    return DenseMatrix<R>(heap<R>().data() + v[0].I(), v[1].I(), v[2].I());
}
template <class R> vp::J shape(const DenseMatrix<R>& m) { return vp::J::arr().push((long)(m.data - heap<R>().data())).push(m.nRow).push(m.nCol); }

template <class R, int F, int Q> vp::J legacy() {
    auto p = std::unique_ptr<MemoryLegacy<R, F, Q>>(new MemoryLegacy<R, F, Q>());
    AniMemory<R, int> m = p->template getAniMemory<int>();
    vp::J at = vp::J::arr();
    for (auto* a : {&m.U, &m.V, &m.DU, &m.DIFF, &m.extraR, &m.XYG, &m.XYP, &m.PSI, &m.DET, &m.MES, &m.NRM, &m.XYL, &m.WG}) {
        long o = (char*)a->data - (char*)p.get();
        at.push(vp::J::arr().push(a->data && o % (long)sizeof(R) == 0 ? std::max(-1L, std::min(o / (long)sizeof(R), 100000000L)) : -1L).push(a->size));
        if (a->data) for (auto& x : *a) x = R(1);   // under AddressSanitizer: every element is really there
    }
    vp::J r = vp::J::obj(); r.set("at", at).set("F", F).set("Q", Q).set("total", sizeof(*p) / sizeof(R)).set("f", m.f);
    return r;
}
template <int N, class R> vp::J band(const vp::J& op) {
    std::vector<DenseMatrix<R>> d; for (auto& x : op["parts"].a) d.push_back(mx<R>(x));
    auto row = op["row"].ints(), col = op["col"].ints();
    BandDenseMatrixX<R, int> X(N, d.data(), row.data(), col.data());
    BandDenseMatrix<N, R, int> B(X);
    BandDenseMatrixX<R, int> Y(B);
    auto C = convToBendMx(B, 7, 9);
    vp::J parts = vp::J::arr(), back = vp::J::arr();
    for (int i = 0; i < N; ++i) { parts.push(shape(B.data[i])); back.push(shape(Y.data[i])); }
    bool same = true;
    for (int i = 0; i < N; ++i) same = same && C.data[i].data == B.data[i].data && C.data[i].nRow == B.data[i].nRow && C.data[i].nCol == B.data[i].nCol;
    for (int i = 0; i <= N; ++i) same = same && C.stRow[i] == B.stRow[i] && C.stCol[i] == B.stCol[i];
    BandDenseMatrix<N, R, int> Z; for (int i = 0; i <= N; ++i) same = same && Z.stRow[i] == 0 && Z.stCol[i] == 0;
    for (int i = 0; i < N; ++i) same = same && !Z.data[i].data && Z.data[i].nRow == 0 && Z.data[i].nCol == 0;
    std::vector<int> r1(B.stRow, B.stRow + N + 1), c1(B.stCol, B.stCol + N + 1);
    for (int i = 0; i <= N; ++i) same = same && Y.stRow[i] == r1[i] && Y.stCol[i] == c1[i];
    // X -> N copies the descriptors, N -> X is a view of them
    bool shared = Y.stRow == B.stRow && Y.stCol == B.stCol && Y.data == B.data && B.stRow != row.data() && X.data == d.data();
    vp::J r = vp::J::obj();
    r.set("n", (long)Y.nparts).set("row", r1).set("col", c1).set("parts", parts).set("back", back).set("same", same).set("shared", shared);
    return r;
}
template <class R> vp::J text(const DenseMatrix<R>& m, const vp::J& op) {
    std::string vs = op["vs"].S(), rs = op["rs"].S(), s;
    std::ostringstream os; os << m;
    bool deflt = os.str() == m.to_string(" ", "\n") && os.str() == m.to_string();
    s = m.to_string(vs, rs);
    vp::J rows = vp::J::arr(); bool good = deflt; size_t p = 0;
    while (p < s.size()) {
        size_t e = s.find(rs, p); if (e == std::string::npos) { good = false; break; }
        std::string line = s.substr(p, e - p); p = e + rs.size();
        vp::J row = vp::J::arr(); size_t b = 0;
        while (true) {
            size_t f = line.find(vs, line[b] == ' ' ? b + 1 : b); std::string tok = line.substr(b, f == std::string::npos ? f : f - b);
            char* end; double x = std::strtod(tok.c_str(), &end);
            if (end == tok.c_str() || *end) good = false;
            row.push(q(x));
            if (f == std::string::npos) break;
            b = f + vs.size();
        }
        rows.push(row);
    }
    vp::J r = vp::J::obj(); r.set("rows", rows).set("ok", good);
    return r;
}
template <class R> vp::J step(const vp::J& op) {
    const std::string& o = op["op"].S();
    auto& H = heap<R>();
    vp::J r = vp::J::obj(); ok = true;
    if (o == "make") {
        auto& v = op["v"]; int cap = op["cap"].I(); R* d = H.data() + v[0].I();
        DenseMatrix<R> m;
        if (m.data || m.nRow || m.nCol || m.size) ok = false;
        if (cap < 0) m = DenseMatrix<R>(d, v[1].I(), v[2].I());
        else if (op["how"].I()) m.Init(d, v[1].I(), v[2].I(), cap);
        else m = DenseMatrix<R>(d, v[1].I(), v[2].I(), cap);
        r.set("shape", shape(m)).set("size", m.size);
    } else if (o == "get") {
        auto m = mx<R>(op["v"]); const auto& cm = m; int i = op["i"].I(), j = op["j"].I();
        long c = &m(i, j) - H.data(), n = &m[0] - H.data();
        r.set("val", q(cm(i, j))).set("cell", c).set("lin", (long)(&m[i + op["v"][1].I() * j] - H.data())).set("linval", q(cm[c - n]));
    } else if (o == "put") { auto m = mx<R>(op["v"]); m(op["i"].I(), op["j"].I()) = op["c"].I(); }
    else if (o == "add" || o == "sub") {
        auto m = mx<R>(op["v"]); 
        DenseMatrix<R>* res;
        if (op["how"].I() == 0) { auto w = mx<R>(op["w"]); res = o == "add" ? &(m += w) : &(m -= w); }
        else if (op["how"].I() == 1) { std::vector<float> f(H.begin(), H.end()); DenseMatrix<float> w(f.data() + op["w"][0].I(), op["w"][1].I(), op["w"][2].I()); res = o == "add" ? &(m += w) : &(m -= w); }
        else { DenseMatrix<const R> w(H.data() + op["w"][0].I(), op["w"][1].I(), op["w"][2].I()); res = o == "add" ? &(m += w) : &(m -= w); }
        if (res != &m) ok = false;
    } else if (o == "mul") { auto m = mx<R>(op["v"]); auto* res = op["how"].I() ? &(m *= double(op["c"].I())) : &(m *= op["c"].I()); if (res != &m) ok = false; }
    else if (o == "div") { auto m = mx<R>(op["v"]); auto* res = op["how"].I() ? &(m /= float(op["c"].I())) : &(m /= double(op["c"].I())); if (res != &m) ok = false; }
    else if (o == "zero") mx<R>(op["v"]).SetZero();
    else if (o == "eye") { auto m = mx<R>(op["v"]); if (op["c"].I()) m.SetEye(op["c"].I()); else m.SetEye(); }
    else if (o == "norm") {
        auto m = mx<R>(op["v"]), w = mx<R>(op["w"]); double a = op["a"].I(), b = op["b"].I();
        double n = b == 0 && op["how"].I() ? DenseMatrix<R>::ScalNorm(a, m) : DenseMatrix<R>::ScalNorm(a, m, b, w);
        if (op["how"].I() == 2) {  // read-only matrices
            DenseMatrix<const R> x(m.data, m.nRow, m.nCol), y(w.data, w.nRow, w.nCol);
            if (DenseMatrix<const R>::ScalNorm(a, x, b, y) != DenseMatrix<R>::ScalNorm(a, m, b, w)) ok = false;
        }
        bool k = true; long long s = vp::qround(n * n, 1, 1e-9 * (1 + n * n) * (sizeof(R) == 4 ? 2000 : 1), k);
        r.set("sq", s).set("ok", k).set("sign", n >= 0);
    } else if (o == "str") r = text(mx<R>(op["v"]), op);
    else if (o == "arr") {
        int of = op["v"][0].I(), n = op["v"][1].I();
        ArrayView<R> a(H.data() + of, n), e; e.Init(H.data() + of, n);
        ArrayView<const R> c = a; ArrayView<R> b = a;
        vp::J items = vp::J::arr(), it = vp::J::arr(), cit = vp::J::arr();
        const auto& ca = a;
        for (int i = 0; i < n; ++i) { items.push(q(ca[i])); if (&a[i] != H.data() + of + i || &e[i] != &a[i]) ok = false; }
        for (auto& x : a) it.push(q(x));
        for (auto& x : c) cit.push(q(x));
        int k = 0; for (auto p = ca.begin(); p != ca.end(); ++p, ++k) if (*p != a[k]) ok = false;
        if (k != n) ok = false;
        if (op["f"].S() == "zero") a.SetZero(); else if (op["f"].S() == "shift") for (int i = 0; i < n; ++i) b[i] += i + 1;
        r.set("empty", ca.empty()).set("size", c.size);
        ArrayView<R> z; bool cl = z.empty() && z.begin() == z.end();
        a.clear(); cl = cl && a.empty() && a.size == 0 && !a.data && a.begin() == a.end() && b.size == (size_t)n;
        r.set("items", items).set("iter", it).set("citer", cit).set("cleared", cl);
    } else if (o == "band") {
        int n = op["parts"].size();
        r = n == 1 ? band<1, R>(op) : n == 2 ? band<2, R>(op) : n == 3 ? band<3, R>(op) : band<4, R>(op);
    } else if (o == "conv") {
        auto B = convToBendMx(mx<R>(op["v"]), op["dim"].I(), op["nf"].I());
        r.set("row", std::vector<int>(B.stRow, B.stRow + 2)).set("col", std::vector<int>(B.stCol, B.stCol + 2)).set("part", shape(B.data[0]));
    } else if (o == "legacy") {
        switch (op["k"].I()) {
            case 0: r = legacy<R, 1, 24>(); break;
            case 1: r = legacy<R, 2, 4>(); break;
            case 2: r = legacy<R, 4, 1>(); break;
            case 3: r = legacy<R, 3, 5>(); break;
            default: { auto p = std::unique_ptr<MemoryLegacy<R>>(new MemoryLegacy<R>()); (void)p; r = legacy<R, 1, 1>(); }
        }
    } else std::_Exit(3);
    auto d = dump<R>();
    if (!ok) d.push(-1);    // an inexact or misplaced answer: no specification heap looks like this
    r.set("heap", d);
    return r;
}
int main(int argc, char** argv) {
    bool flt = false;
    return vp::run(argc, argv, [&](const vp::J& op) -> vp::J {
        if (op["op"].S() == "case") { heap<double>().clear(); heap<float>().clear(); return vp::J(); }
        if (op["op"].S() == "heap") {
            flt = op["ty"].S() == "f"; roomy = op.has("roomy") && op["roomy"].B();
            // exact size, so that AddressSanitizer sees accesses past the heap
            auto h = op["vals"].ints();
            std::vector<double>(h.begin(), h.end()).swap(heap<double>()); std::vector<float>(h.begin(), h.end()).swap(heap<float>());
            vp::J r = vp::J::obj(); ok = true; r.set("heap", flt ? dump<float>() : dump<double>()); return r;
        }
        return flt ? step<float>(op) : step<double>(op);
    });
}
