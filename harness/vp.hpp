// Shared by all conformance drivers: tiny JSON value, script reader, NDJSON trace writer.
#ifndef VP_HPP
#define VP_HPP
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <iostream>
#include <sstream>
#include <functional>
#include <stdexcept>
#include <utility>

namespace vp {
struct J {
    enum T { NUL, BOOL, INT, STR, ARR, OBJ } t = NUL;
    long long i = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
    J() {}
    J(bool b) : t(BOOL), i(b) {}
    J(int v) : t(INT), i(v) {}
    J(long v) : t(INT), i(v) {}
    J(long long v) : t(INT), i(v) {}
    J(unsigned v) : t(INT), i(v) {}
    J(unsigned long v) : t(INT), i((long long)v) {}
    J(const char* v) : t(STR), s(v) {}
    J(const std::string& v) : t(STR), s(v) {}
    template <class X> J(const std::vector<X>& v) : t(ARR) { for (const auto& x : v) a.push_back(J(x)); }
    static J arr() { J j; j.t = ARR; return j; }
    static J obj() { J j; j.t = OBJ; return j; }
    J& push(const J& v) { t = ARR; a.push_back(v); return *this; }
    J& set(const std::string& k, const J& v) {
        t = OBJ;
        for (auto& p : o) if (p.first == k) { p.second = v; return *this; }
        o.emplace_back(k, v);
        return *this;
    }
    bool has(const std::string& k) const { for (auto& p : o) if (p.first == k) return true; return false; }
    const J& operator[](const std::string& k) const {
        for (auto& p : o) if (p.first == k) return p.second;
        std::fprintf(stderr, "script: missing field %s\n", k.c_str()); std::_Exit(3);
    }
    const J& operator[](const char* k) const { return (*this)[std::string(k)]; }
    const J& operator[](size_t k) const { if (k >= a.size()) { std::fprintf(stderr, "script: index out of range\n"); std::_Exit(3); } return a[k]; }
    const J& operator[](int k) const { return (*this)[(size_t)k]; }
    size_t size() const { return a.size(); }
    int I() const { return (int)i; }
    bool B() const { return i != 0; }
    const std::string& S() const { return s; }
    std::vector<int> ints() const { std::vector<int> r; for (auto& x : a) r.push_back((int)x.i); return r; }
    void write(std::string& out) const {
        switch (t) {
            case NUL: out += "0"; break;
            case BOOL: out += i ? "true" : "false"; break;
            case INT: out += std::to_string(i); break;
            case STR: { out += '"'; for (char c : s) { if (c == '"' || c == '\\') { out += '\\'; out += c; } else if (c == '\t') { out += "\\t"; } else if ((unsigned char)c < 32) { out += ' '; } else out += c; } out += '"'; break; }
            case ARR: { out += '['; bool f = true; for (auto& x : a) { if (!f) out += ','; f = false; x.write(out); } out += ']'; break; }
            case OBJ: { out += '{'; bool f = true; for (auto& x : o) { if (!f) out += ','; f = false; out += '"'; out += x.first; out += "\":"; x.second.write(out); } out += '}'; break; }
        }
    }
    std::string str() const { std::string r; write(r); return r; }
};

struct Parser {
    const char* p; const char* e;
    void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
    [[noreturn]] void bad() { std::fprintf(stderr, "script: bad JSON near %.30s\n", p); std::_Exit(3); }
    J val() {
        ws();
        if (p >= e) bad();
        if (*p == '{') {
            ++p; J r = J::obj(); ws();
            if (*p == '}') { ++p; return r; }
            while (true) {
                ws(); J k = val(); ws(); if (*p != ':') bad(); ++p;
                r.o.emplace_back(k.s, val()); ws();
                if (*p == ',') { ++p; continue; }
                if (*p == '}') { ++p; return r; }
                bad();
            }
        }
        if (*p == '[') {
            ++p; J r = J::arr(); ws();
            if (*p == ']') { ++p; return r; }
            while (true) {
                r.a.push_back(val()); ws();
                if (*p == ',') { ++p; continue; }
                if (*p == ']') { ++p; return r; }
                bad();
            }
        }
        if (*p == '"') {
            ++p; J r; r.t = J::STR;
            while (p < e && *p != '"') { if (*p == '\\') { ++p; char c = *p++; r.s += c == 't' ? '\t' : c == 'n' ? '\n' : c; } else r.s += *p++; }
            ++p; return r;
        }
        if (!std::strncmp(p, "true", 4)) { p += 4; return J(true); }
        if (!std::strncmp(p, "false", 5)) { p += 5; return J(false); }
        if (!std::strncmp(p, "null", 4)) { p += 4; return J(); }
        char* q; long long v = std::strtoll(p, &q, 10);
        if (q == p) bad();
        p = q; return J(v);
    }
};
inline J parse(const std::string& s) { Parser ps{s.data(), s.data() + s.size()}; return ps.val(); }

struct Trace {
    FILE* f = nullptr;
    void open(const char* n) { f = std::fopen(n, "w"); if (!f) std::_Exit(3); }
    void put(const J& j) { std::string s = j.str(); s += '\n'; std::fwrite(s.data(), 1, s.size(), f); std::fflush(f); }
};
inline Trace& trace() { static Trace t; return t; }

// round(x*K) as a pair (ok, value): ok = x*K is within tol of an integer that fits in 31 bits
inline long long qround(double x, double K, double tol, bool& ok) {
    double v = x * K;
    if (!(std::fabs(v) < 2.0e9)) { ok = false; return 2000000001LL; }
    double n = std::nearbyint(v);
    if (std::fabs(v - n) > tol) ok = false;
    return (long long)n;
}

// main loop: every script line is handed to `f`, which returns the event to record (the op with field "r" added)
template <class F> int run(int argc, char** argv, F f) {
    if (argc < 3) { std::fprintf(stderr, "usage: driver script trace\n"); return 3; }
    std::ifstream in(argv[1]);
    if (!in) return 3;
    trace().open(argv[2]);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        J op = parse(line);
        J r = f(op);
        if (r.t == J::OBJ && r.has("op")) { trace().put(r); continue; }  // complete event
        if (r.t != J::NUL) op.set("r", r);
        trace().put(op);
    }
    std::fclose(trace().f);
    return 0;
}
}  // namespace vp
#endif
