// A matrix backend for Ani::BaseExpr.  REALF: the functions are those of the reals; otherwise entries are whole numbers
// modulo 1009 and every function without an obvious meaning there is a fixed affine function of its arguments, so that
// two functions cannot be confused.
#ifndef NUMEXPR_HPP
#define NUMEXPR_HPP
#include "anifem++/fem/expr_interface.h"
#include <cmath>
#include <functional>
namespace ne {
using Ani::BaseExpr;
static const long long Q = 1009;
template <bool REALF> struct NumE : public BaseExpr {
    std::vector<double> v; std::size_t r = 1, c = 1;
    NumE(std::size_t r_ = 1, std::size_t c_ = 1) : v(r_ * c_, 0.), r(r_), c(c_) {}
    double& at(std::size_t i, std::size_t j) { if (i >= r || j >= c) throw std::out_of_range("NumE"); return v[i + r * j]; }
    double at(std::size_t i, std::size_t j) const { if (i >= r || j >= c) throw std::out_of_range("NumE"); return v[i + r * j]; }
    static const NumE& o(const BaseExpr& b) { return static_cast<const NumE&>(b); }
    static double nrm(double x) { if (REALF) return x; long long n = (long long)std::llround(x) % Q; return double(n < 0 ? n + Q : n); }
    NumE& take(NumE&& x) { for (auto& y : x.v) y = nrm(y); v = std::move(x.v); r = x.r; c = x.c; return *this; }
    template <class F> NumE& map(const BaseExpr& a, F f) { NumE t(o(a)); for (auto& x : t.v) x = f(x); return take(std::move(t)); }
    template <class F> static NumE zip(const NumE& a, const NumE& b, F f) {
        bool sa = a.v.size() == 1, sb = b.v.size() == 1;
        if (!sa && !sb && (a.r != b.r || a.c != b.c)) throw std::runtime_error("NumE: shapes");
        NumE t(sa ? b.r : a.r, sa ? b.c : a.c);
        for (std::size_t k = 0; k < t.v.size(); ++k) t.v[k] = nrm(f(a.v[sa ? 0 : k], b.v[sb ? 0 : k]));
        return t;
    }
    template <class F> NumE& map2(const BaseExpr& a, const BaseExpr& b, F f) { return take(zip(o(a), o(b), f)); }
    template <class F> NumE& fold(const BaseExpr** b, const BaseExpr** e, F f) { NumE t(o(**b)); for (++b; b != e; ++b) t = zip(t, o(**b), f); return take(std::move(t)); }
    std::shared_ptr<BaseExpr> makeExpr(std::size_t a, std::size_t b) const override { return std::make_shared<NumE>(a, b); }
    std::shared_ptr<BaseExpr> makeCopy() const override { return std::make_shared<NumE>(*this); }
    std::size_t size1() const override { return r; }
    std::size_t size2() const override { return c; }
    BaseExpr& reshape(std::size_t a, std::size_t b) override { if (a * b != v.size()) throw std::runtime_error("NumE: reshape"); r = a; c = b; return *this; }
    BaseExpr& set_val(double x) override { for (auto& y : v) y = nrm(x); return *this; }
    BaseExpr& set_val(double* x) override { for (std::size_t k = 0; k < v.size(); ++k) v[k] = nrm(x[k]); return *this; }
    BaseExpr& set_val(const BaseExpr& x) override { return take(NumE(o(x))); }
    using BaseExpr::set_val;
    BaseExpr& set_sub_matrix(const BaseExpr& x, const std::size_t* i, std::size_t n, const std::size_t* j, long m) override {
        NumE t(n, m);
        for (std::size_t a = 0; a < n; ++a) for (long b = 0; b < m; ++b) t.at(a, b) = (!REALF && (i[a] >= o(x).r || j[b] >= o(x).c)) ? 0. : o(x).at(i[a], j[b]);   // bounds are the caller's duty
        return take(std::move(t));
    }
    static std::vector<std::size_t> slice(std::size_t s, long inc, std::size_t n) {
        std::vector<std::size_t> k; if (inc == 0) inc = (long)n;
        for (long a = (long)s; a >= 0 && a < (long)n; a += inc) k.push_back((std::size_t)a);
        return k;
    }
    BaseExpr& set_sub_matrix(const BaseExpr& x, std::size_t i, long di, std::size_t j, long dj) override {
        auto a = slice(i, di, o(x).r), b = slice(j, dj, o(x).c);
        return set_sub_matrix(x, a.data(), a.size(), b.data(), (long)b.size());
    }
    BaseExpr& set_horzcat(const BaseExpr** b, const BaseExpr** e) override {
        NumE t(o(**b).r, 0);
        for (; b != e; ++b) { if (o(**b).r != t.r) throw std::runtime_error("NumE: horzcat"); t.v.insert(t.v.end(), o(**b).v.begin(), o(**b).v.end()); t.c += o(**b).c; }
        return take(std::move(t));
    }
    BaseExpr& set_vertcat(const BaseExpr** b, const BaseExpr** e) override {
        std::size_t n = 0; for (auto p = b; p != e; ++p) { n += o(**p).r; if (o(**p).c != o(**b).c) throw std::runtime_error("NumE: vertcat"); }
        NumE t(n, o(**b).c); std::size_t s = 0;
        for (; b != e; ++b) { for (std::size_t i = 0; i < o(**b).r; ++i) for (std::size_t j = 0; j < t.c; ++j) t.at(s + i, j) = o(**b).at(i, j); s += o(**b).r; }
        return take(std::move(t));
    }
    BaseExpr& set_scal_sum(const BaseExpr** b, const BaseExpr** e, const double* k) override {
        NumE t(o(**b)); for (auto& x : t.v) x *= *k;
        for (++b, ++k; b != e; ++b, ++k) { double q = *k; t = zip(t, o(**b), [q](double x, double y) { return x + q * y; }); }
        return take(std::move(t));
    }
    using BaseExpr::set_sum; using BaseExpr::set_mul; using BaseExpr::set_min; using BaseExpr::set_max; using BaseExpr::set_mtimes;
    BaseExpr& set_sum(const BaseExpr** b, const BaseExpr** e) override { return fold(b, e, [](double x, double y) { return x + y; }); }
    BaseExpr& set_mul(const BaseExpr** b, const BaseExpr** e) override { return fold(b, e, [](double x, double y) { return x * y; }); }
    BaseExpr& set_sub(const BaseExpr& a, const BaseExpr& b) override { return map2(a, b, [](double x, double y) { return x - y; }); }
    BaseExpr& set_swap_sign(const BaseExpr& a) override { return map(a, [](double x) { return -x; }); }
    BaseExpr& set_div(const BaseExpr& a, const BaseExpr& b) override { return map2(a, b, [](double x, double y) { return REALF ? x / y : 3 * x + 11 * y + 2; }); }
#define FN1(NAME, K, REXPR) BaseExpr& set_##NAME(const BaseExpr& a) override { return map(a, [](double x) -> double { return REALF ? (double)(REXPR) : 7 * x + 10 * K + 1; }); }
    FN1(abs, 1, std::fabs(x)) FN1(exp, 2, std::exp(x)) FN1(expm1, 3, std::expm1(x)) FN1(log, 4, std::log(x)) FN1(log1p, 5, std::log1p(x)) FN1(sqrt, 6, std::sqrt(x))
    FN1(cbrt, 7, std::cbrt(x)) FN1(sin, 8, std::sin(x)) FN1(cos, 9, std::cos(x)) FN1(tan, 10, std::tan(x)) FN1(asin, 11, std::asin(x)) FN1(acos, 12, std::acos(x))
    FN1(atan, 13, std::atan(x)) FN1(sinh, 14, std::sinh(x)) FN1(cosh, 15, std::cosh(x)) FN1(tanh, 16, std::tanh(x)) FN1(erf, 17, std::erf(x)) FN1(erfc, 18, std::erfc(x))
    FN1(tgamma, 19, std::tgamma(x)) FN1(lgamma, 20, std::lgamma(x)) FN1(floor, 21, std::floor(x)) FN1(ceil, 22, std::ceil(x)) FN1(sign, 23, (x > 0) - (x < 0))
#define FN2(NAME, K, REXPR) BaseExpr& set_##NAME(const BaseExpr& a, const BaseExpr& b) override { return map2(a, b, [](double x, double y) -> double { return REALF ? (double)(REXPR) : 3 * x + 5 * y + 10 * K + 2; }); }
    FN2(pow, 1, std::pow(x, y)) FN2(atan2, 2, std::atan2(x, y)) FN2(fmod, 3, std::fmod(x, y)) FN2(hypot, 4, std::hypot(x, y))
    BaseExpr& set_min(const BaseExpr** b, const BaseExpr** e) override { return fold(b, e, [](double x, double y) { return x < y ? x : y; }); }
    BaseExpr& set_max(const BaseExpr** b, const BaseExpr** e) override { return fold(b, e, [](double x, double y) { return x > y ? x : y; }); }
    BaseExpr& set_fma(const BaseExpr& a, const BaseExpr& b, const BaseExpr& d) override {
        return take(zip(zip(o(a), o(b), [](double x, double y) { return x * y; }), o(d), [](double x, double y) { return x + y; }));
    }
    BaseExpr& set_ifelse(const BaseExpr& x, const BaseExpr& y, const BaseExpr& z) override {
        NumE p = zip(o(x), o(y), [](double a, double b) { return a != 0 ? b : 0; }), q = zip(o(x), o(z), [](double a, double b) { return a != 0 ? 0 : b; });
        return take(zip(p, q, [](double a, double b) { return a + b; }));
    }
    BaseExpr& set_not(const BaseExpr& a) override { return map(a, [](double x) -> double { return x == 0; }); }
    BaseExpr& set_lt(const BaseExpr& a, const BaseExpr& b) override { return map2(a, b, [](double x, double y) -> double { return x < y; }); }
    BaseExpr& set_eq(const BaseExpr& a, const BaseExpr& b) override { return map2(a, b, [](double x, double y) -> double { return x == y; }); }
    BaseExpr& set_and(const BaseExpr& a, const BaseExpr& b) override { return map2(a, b, [](double x, double y) -> double { return x != 0 && y != 0; }); }
    BaseExpr& set_or(const BaseExpr& a, const BaseExpr& b) override { return map2(a, b, [](double x, double y) -> double { return x != 0 || y != 0; }); }
    BaseExpr& set_transpose(const BaseExpr& a) override { NumE t(o(a).c, o(a).r); for (std::size_t i = 0; i < t.r; ++i) for (std::size_t j = 0; j < t.c; ++j) t.at(i, j) = o(a).at(j, i); return take(std::move(t)); }
    BaseExpr& set_cross(const BaseExpr& a, const BaseExpr& b) override {
        if (o(a).v.size() != 3 || o(b).v.size() != 3 || o(a).r != o(b).r) throw std::runtime_error("NumE: cross");
        NumE t(o(a).r, o(a).c); auto &x = o(a).v, &y = o(b).v;
        for (int k = 0; k < 3; ++k) t.v[k] = x[(k + 1) % 3] * y[(k + 2) % 3] - x[(k + 2) % 3] * y[(k + 1) % 3];
        return take(std::move(t));
    }
    BaseExpr& set_dot(const BaseExpr& a, const BaseExpr& b) override {
        if (o(a).r != o(b).r || o(a).c != o(b).c) throw std::runtime_error("NumE: dot");
        NumE t; for (std::size_t k = 0; k < o(a).v.size(); ++k) t.v[0] += o(a).v[k] * o(b).v[k];
        return take(std::move(t));
    }
    BaseExpr& set_mtimes(const BaseExpr** b, const BaseExpr** e) override {
        NumE t(o(**b));
        for (++b; b != e; ++b) {
            const NumE& y = o(**b); if (t.c != y.r) throw std::runtime_error("NumE: mtimes");
            NumE s(t.r, y.c);
            for (std::size_t i = 0; i < s.r; ++i) for (std::size_t j = 0; j < s.c; ++j) { double q = 0; for (std::size_t k = 0; k < t.c; ++k) q += t.at(i, k) * y.at(k, j); s.at(i, j) = nrm(q); }
            t = s;
        }
        return take(std::move(t));
    }
};
}  // namespace ne
#endif
