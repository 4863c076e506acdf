// Driver: PlainMemory / PlainMemoryX layout.
#include "vp.hpp"
#include <memory>
#include "anifem++/fem/fem_memory.h"
using namespace Ani;
static const int PAD = 64;
template <class T> void paint(T* p, size_t n, int tag) { unsigned char* c = (unsigned char*)p; for (size_t i = 0; i < n * sizeof(T); ++i) c[i] = (unsigned char)(tag + i % 50); }
template <class T> bool same(T* p, size_t n, int tag) { unsigned char* c = (unsigned char*)p; for (size_t i = 0; i < n * sizeof(T); ++i) if (c[i] != (unsigned char)(tag + i % 50)) return false; return true; }
template <class R, class I> vp::J raw(const vp::J& op) {
    auto cnt = op["cnt"].ints();
    bool X = cnt.size() == 3;
    PlainMemory<R, I> m; PlainMemoryX<R, I> mx;
    m.dSize = mx.dSize = cnt[0]; m.iSize = mx.iSize = cnt[1]; if (X) mx.mSize = cnt[2];
    size_t enough = X ? mx.enoughRawSize() : m.enoughRawSize();
    long bytes = (long)enough + op["delta"].I();
    if (bytes < 0) bytes = 0;
    int res = op["res"].I();
    // exact heap block so that AddressSanitizer sees any access outside the region
    char* block = (char*)std::malloc(bytes + 32);
    size_t sh = (16 + res - ((size_t)block) % 16) % 16;
    char* base = block + sh;
    std::unique_ptr<char, void (*)(void*)> guard(block, std::free);
    if (!op["four"].B()) { m = PlainMemory<R, I>(); mx = PlainMemoryX<R, I>(); }
    void* end = op["four"].B() ? (X ? mx.allocateFromRaw(base, bytes) : m.allocateFromRaw(base, bytes))
                               : (X ? mx.allocateFromRaw(base, bytes, cnt[0], cnt[1], cnt[2]) : m.allocateFromRaw(base, bytes, cnt[0], cnt[1]));
    vp::J r = vp::J::obj();
    bool ok = end != nullptr || (cnt[0] == 0 && cnt[1] == 0 && (!X || cnt[2] == 0));
    R* d = X ? mx.ddata : m.ddata; I* i = X ? mx.idata : m.idata;
    vp::J sz = vp::J::arr(), al = vp::J::arr(), off = vp::J::arr(), c2 = vp::J::arr();
    sz.push(sizeof(R)).push(sizeof(I)); al.push(alignof(R)).push(alignof(I));
    bool intact = true;
    auto in = [&](void* p, size_t n) { return (char*)p >= base && (char*)p + n <= base + bytes; };
    if (ok) {
        bool okd = !cnt[0] || in(d, cnt[0] * sizeof(R)), oki = !cnt[1] || in(i, cnt[1] * sizeof(I)), okm = !X || !cnt[2] || in(mx.mdata, cnt[2] * sizeof(*mx.mdata));
        if (okd && oki && okm) {
            if (cnt[0]) paint(d, cnt[0], 10);
            if (cnt[1]) paint(i, cnt[1], 80);
            if (X && cnt[2]) paint(mx.mdata, cnt[2], 150);
            if (cnt[0]) intact = intact && same(d, cnt[0], 10);
            if (cnt[1]) intact = intact && same(i, cnt[1], 80);
            if (X && cnt[2]) intact = intact && same(mx.mdata, cnt[2], 150);
        } else intact = false;
    }
    auto o = [&](void* p, int n) { long v = n && p && ok ? (char*)p - base : 0; return v > 1000000 || v < -1000000 ? -1000000L : v; };
    off.push(o(d, cnt[0])).push(o(i, cnt[1]));
    c2.push(X ? mx.dSize : m.dSize).push(X ? mx.iSize : m.iSize);
    if (X) { sz.push(sizeof(*mx.mdata)); al.push(alignof(DenseMatrix<R>)); off.push(o(mx.mdata, cnt[2])); c2.push(mx.mSize); }
    long e = end ? (char*)end - base : 0;
    r.set("ok", ok).set("enough", enough).set("bytes", bytes).set("base", ((size_t)base) % 16).set("off", off).set("cnt", c2).set("sz", sz).set("al", al)
     .set("end", e > 1000000 ? 1000000L : e).set("intact", intact);
    return r;
}
template <class R, class I> vp::J plain(const vp::J& op) {
    auto cnt = op["cnt"].ints();
    bool fromS = op["from"].I() == 1;
    PlainMemoryX<R, I> mx; mx.dSize = cnt[0]; mx.iSize = cnt[1]; mx.mSize = cnt[2];
    auto need = mx.enoughPlainMemory(fromS);
    long nd = need.dSize, ni = need.iSize, dl = op["delta"].I();
    (fromS ? nd : ni) += dl; if (nd < 0) nd = 0; if (ni < 0) ni = 0;
    int res = op["res"].I();
    char *b1 = (char*)std::malloc(nd * sizeof(R) + 32), *b2 = (char*)std::malloc(ni * sizeof(I) + 32);
    std::unique_ptr<char, void (*)(void*)> g1(b1, std::free), g2(b2, std::free);
    R* d = (R*)(b1 + (16 + (res * alignof(R)) % 16 - ((size_t)b1) % 16) % 16);
    I* i = (I*)(b2 + (16 + (res * alignof(I)) % 16 - ((size_t)b2) % 16) % 16);
    PlainMemory<R, I> pm; pm.ddata = d; pm.idata = i; pm.dSize = nd; pm.iSize = ni;
    int how = op["how"].I();   // 0: sizes of the object; 1: sizes given to an object that has none; 2: the same through defaulted arguments
    bool ok;
    if (how == 0) ok = mx.allocateFromPlainMemory(pm, fromS);
    else {
        PlainMemoryX<R, I> fresh;
        if (how == 1) ok = fresh.allocateFromPlainMemory(d, nd, i, ni, cnt[0], cnt[1], cnt[2], fromS);
        else if (!fromS) ok = fresh.allocateFromPlainMemory(d, nd, i, ni, cnt[0], cnt[1], cnt[2], false);
        else {
            ok = fresh.allocateFromPlainMemory(d, nd, i, ni, cnt[0], cnt[1], cnt[2]);
            auto y = mx; bool k2 = y.allocateFromPlainMemory(pm); auto need2 = mx.enoughPlainMemory();
            if (k2 != ok || (ok && cnt[2] && y.mdata != fresh.mdata) || need2.dSize != need.dSize || need2.iSize != need.iSize) ok = !ok;   // defaults mean "from the scalars"
        }
        mx = fresh;
    }
    vp::J r = vp::J::obj(); bool intact = true;
    vp::J off = vp::J::arr(), room = vp::J::arr(), base = vp::J::arr(), sz = vp::J::arr(), al = vp::J::arr(), c2 = vp::J::arr();
    char* hb = fromS ? (char*)d : (char*)i; size_t hroom = fromS ? nd * sizeof(R) : ni * sizeof(I);
    if (ok) {
        bool in = (!cnt[0] || ((char*)mx.ddata >= (char*)d && (char*)(mx.ddata + cnt[0]) <= (char*)(d + nd)))
               && (!cnt[1] || ((char*)mx.idata >= (char*)i && (char*)(mx.idata + cnt[1]) <= (char*)(i + ni)))
               && (!cnt[2] || ((char*)mx.mdata >= hb && (char*)(mx.mdata + cnt[2]) <= hb + hroom));
        if (in) {
            if (cnt[0]) paint(mx.ddata, cnt[0], 10);
            if (cnt[1]) paint(mx.idata, cnt[1], 80);
            if (cnt[2]) paint(mx.mdata, cnt[2], 150);
            if (cnt[0]) intact = intact && same(mx.ddata, cnt[0], 10);
            if (cnt[1]) intact = intact && same(mx.idata, cnt[1], 80);
        } else intact = false;
    }
    auto o = [&](void* p, char* b, int n) { long v = ok && n ? (char*)p - b : 0; return v > 1000000 || v < -1000000 ? -1000000L : v; };
    off.push(o(mx.ddata, (char*)d, cnt[0])).push(o(mx.idata, (char*)i, cnt[1])).push(o(mx.mdata, hb, cnt[2]));
    room.push(nd * sizeof(R)).push(ni * sizeof(I)); base.push(((size_t)d) % 16).push(((size_t)i) % 16);
    sz.push(sizeof(R)).push(sizeof(I)).push(sizeof(*mx.mdata)); al.push(alignof(R)).push(alignof(I)).push(alignof(DenseMatrix<R>));
    c2.push(mx.dSize).push(mx.iSize).push(mx.mSize);
    r.set("ok", ok).set("off", off).set("room", room).set("base", base).set("sz", sz).set("al", al).set("cnt", c2).set("intact", intact);
    return r;
}
template <class M> vp::J sizes(const vp::J& op, M a, M b, bool X) {
    M e = a, p = a; e.extend_size(b); p.append_size(b);
    vp::J r = vp::J::obj(), x = vp::J::arr(), y = vp::J::arr();
    x.push(e.dSize).push(e.iSize); y.push(p.dSize).push(p.iSize);
    (void)X; r.set("ge", a.ge(b)).set("extend", x).set("append", y);
    return r;
}
int main(int argc, char** argv) {
    return vp::run(argc, argv, [](const vp::J& op) -> vp::J {
        const std::string& o = op["op"].S();
        if (o == "case") return vp::J();
        if (o == "size") {
            auto a = op["a"].ints(), b = op["b"].ints();
            if (a.size() == 2) { PlainMemory<> x, y; x.dSize = a[0]; x.iSize = a[1]; y.dSize = b[0]; y.iSize = b[1]; return sizes(op, x, y, false); }
            PlainMemoryX<> x, y; x.dSize = a[0]; x.iSize = a[1]; x.mSize = a[2]; y.dSize = b[0]; y.iSize = b[1]; y.mSize = b[2];
            vp::J r = vp::J::obj(); PlainMemoryX<> e = x, p = x; e.extend_size(y); p.append_size(y);
            r.set("ge", x.ge(y)).set("extend", vp::J::arr().push(e.dSize).push(e.iSize).push(e.mSize)).set("append", vp::J::arr().push(p.dSize).push(p.iSize).push(p.mSize));
            return r;
        }
        const std::string& ty = op["ty"].S();
        bool rw = o == "raw";
        if (ty == "di") return rw ? raw<double, int>(op) : plain<double, int>(op);
        if (ty == "fi") return rw ? raw<float, int>(op) : plain<float, int>(op);
        if (ty == "dc") return rw ? raw<double, char>(op) : plain<double, char>(op);
        if (ty == "fs") return rw ? raw<float, short>(op) : plain<float, short>(op);
        if (ty == "fl") return rw ? raw<float, long>(op) : plain<float, long>(op);
        if (ty == "Di") return rw ? raw<long double, int>(op) : plain<long double, int>(op);
        std::_Exit(3);
    });
}
