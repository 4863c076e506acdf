// Driver: DynMemParallel under controlled schedules (a mutex that hands control to a scheduler) and under real threads;
// ThreadPar::parallel_for coverage.
#include "vp.hpp"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <memory>
#include <algorithm>
#include "anifem++/fem/fem_memory_parallel.h"
using namespace Ani;

// ---------------- controlled schedules
static thread_local int tid = -1;
struct Sched {
    std::mutex m; std::condition_variable cv;
    int running = -1;
    std::vector<char> done; 
    void give(int t) { std::unique_lock<std::mutex> L(m); running = t; cv.notify_all(); if (!cv.wait_for(L, std::chrono::seconds(60), [&] { return running == -1; })) std::_Exit(11); }
    void back() { std::unique_lock<std::mutex> L(m); running = -1; cv.notify_all(); int t = tid; cv.wait(L, [&] { return running == t; }); }
    void start() { std::unique_lock<std::mutex> L(m); int t = tid; cv.wait(L, [&] { return running == t; }); }
    void finish() { std::unique_lock<std::mutex> L(m); done[tid] = 1; running = -1; cv.notify_all(); }
};
static Sched* sch = nullptr;
struct SchedMutex {
    int owner = -1;
    void lock() { if (tid < 0 || !sch) return; do sch->back(); while (owner != -1); owner = tid; }
    bool try_lock() { if (tid < 0 || !sch) return true; sch->back(); if (owner != -1) return false; owner = tid; return true; }
    void unlock() { if (tid < 0 || !sch) return; owner = -1; sch->back(); }
};

struct Rec { long seq; vp::J j; };
static vp::J callJ(int t, const std::string& f, const vp::J& arg) { vp::J j = vp::J::obj(); j.set("op", "call").set("t", t + 1).set("f", f).set("arg", arg); return j; }
static vp::J retJ(int t, const std::string& f, const vp::J& r) { vp::J j = vp::J::obj(); j.set("op", "ret").set("t", t + 1).set("f", f).set("r", r); return j; }

// program of a thread: ["alloc"], ["get",k], ["release",k] (k-th id this thread currently holds), ["range",n], ["relrange"], ["relall"], ["clear"]
template <class Tab, class Log> void program(Tab& tab, int t, const vp::J& prog, Log log, bool use) {
    std::vector<int> mine; std::vector<std::pair<int, int>> rng;
    for (auto& o : prog.a) {
        const std::string& f = o[0].S();
        if (f == "alloc") { log(callJ(t, f, 0)); int id = tab.alloc(); log(retJ(t, f, id)); mine.push_back(id); }
        else if (f == "release") {
            if (mine.empty()) continue;
            int k = o[1].I() % mine.size(); int id = mine[k]; mine.erase(mine.begin() + k);
            log(callJ(t, f, id)); tab.release(id); log(retJ(t, f, 0));
        } else if (f == "get") {
            if (mine.empty()) continue;
            int id = mine[o[1].I() % mine.size()];
            log(callJ(t, f, id)); auto* p = tab.get(id);
            vp::J e = retJ(t, f, 0); e.set("r", (long long)(size_t)p); log(e);
            if (use) { auto part = p->alloc(3, 2, 1); auto x = part.getPlainMemory(); for (int i = 0; i < 3; ++i) x.ddata[i] = t; x.idata[0] = t; }
        } else if (f == "range") { log(callJ(t, f, o[1])); auto r = tab.alloc_range(o[1].I()); vp::J e = retJ(t, f, (int)r.first); if (r.second - r.first != o[1].I()) e.set("r", -1); log(e); rng.push_back({r.first, r.second}); }
        else if (f == "relrange") {
            if (rng.empty()) continue;
            auto r = rng.back(); rng.pop_back();
            log(callJ(t, f, vp::J::arr().push(r.first).push(r.second))); tab.release_range(r); log(retJ(t, f, 0));
        } else if (f == "relall") { log(callJ(t, f, 0)); mine.clear(); rng.clear(); tab.release_all(); log(retJ(t, f, 0)); }
        else if (f == "clear") { log(callJ(t, f, 0)); mine.clear(); rng.clear(); tab.clear(); log(retJ(t, f, 0)); }
        else std::_Exit(3);
    }
}
static void emit(std::vector<vp::J> evs) {  // pool addresses -> small numbers in order of first appearance
    std::map<long long, int> num;
    for (auto& e : evs) {
        if (e["op"].S() == "ret" && e["f"].S() == "get") { long long a = e["r"].i; if (!num.count(a)) { int k = num.size() + 1; num[a] = k; } e.set("r", num[a]); }
        vp::trace().put(e);
    }
}
static void sched(const vp::J& op) {
    Sched s; sch = &s;
    auto& th = op["th"]; int n = th.size();
    s.done.assign(n, 0);
    DynMemParallel<double, int, SchedMutex> tab;
    std::vector<vp::J> evs;
    std::vector<std::thread> ts;
    for (int t = 0; t < n; ++t) ts.emplace_back([&, t] { tid = t; s.start(); program(tab, t, th[t], [&](const vp::J& j) { evs.push_back(j); }, false); s.finish(); });
    auto go = [&](int t) { if (t >= 0 && t < n && !s.done[t]) s.give(t); };
    for (auto& x : op["sched"].a) go(x.I());
    int guard = 0;
    while (std::count(s.done.begin(), s.done.end(), 0)) { for (int t = 0; t < n; ++t) go(t); if (++guard > 100000) std::_Exit(12); }
    for (auto& t : ts) t.join();
    sch = nullptr;
    emit(evs);
}
template <class Mx> static void stress(const vp::J& op, bool region) {
    auto& th = op["th"]; int n = th.size();
    DynMemParallel<double, int, Mx> tab;
    static std::atomic<long> ticket; ticket = 0;
    std::vector<std::vector<Rec>> logs(n);
    std::atomic<int> gate{0};
    auto body = [&](int t) {
        gate.fetch_add(1, std::memory_order_relaxed); while (gate.load(std::memory_order_relaxed) < n) std::this_thread::yield();
        program(tab, t, th[t], [&](const vp::J& j) { logs[t].push_back({ticket.fetch_add(1, std::memory_order_relaxed), j}); }, true); };
    if (region) {
#ifdef WITH_OPENMP
        omp_set_dynamic(0);
        #pragma omp parallel num_threads(n)
        { if (omp_get_num_threads() != n) std::_Exit(3); body(omp_get_thread_num()); }
#endif
    } else {
        std::vector<std::thread> ts;
        for (int t = 0; t < n; ++t) ts.emplace_back(body, t);
        for (auto& t : ts) t.join();
    }
    std::vector<Rec> all; for (auto& l : logs) all.insert(all.end(), l.begin(), l.end());
    std::sort(all.begin(), all.end(), [](const Rec& a, const Rec& b) { return a.seq < b.seq; });
    std::vector<vp::J> evs; for (auto& r : all) evs.push_back(r.j);
    emit(evs);
}
template <ThreadPar::Type T> static vp::J pforT(const vp::J& op) {
    int nt = op["nt"].I(), n = op["n"].I(), off = op["off"].I(); const std::string& it = op["iter"].S();
    std::vector<int> v(n + 1), cnt(n + 1, 0), th(n + 1, -1), os(n + 1, -1); std::vector<std::thread::id> ids(n + 1);
    std::atomic<int> outside{0}; int extra = 7; std::vector<int> ex(n + 1, 0);
    auto body = [&](int k, int t, int a) { if (k < 0 || k >= n) { outside++; return; } cnt[k]++; th[k] = t; ex[k] = a; ids[k] = std::this_thread::get_id(); };
    if (it == "vec") {
        auto f = [&](std::vector<int>::iterator i, int t, int& a) { body(i - v.begin(), t, a); };
        ThreadPar::parallel_for<T>(nt, f, v.begin(), v.begin() + n, extra);
    } else if (it == "ptr") {
        auto f = [&](const int* i, int t, const int& a, int b) { body(i - v.data(), t, a + b); };
        ThreadPar::parallel_for<T>(nt, f, (const int*)v.data(), (const int*)v.data() + n, 3, 4);
    } else if (it == "long") {
        auto f = [&](long i, int t) { body(i - off, t, 7); };
        ThreadPar::parallel_for<T>(nt, f, long(off), long(off) + n);
    } else {
        auto f = [&](int i, int t) { body(i - off, t, 7); };
        ThreadPar::parallel_for<T>(nt, f, off, off + n);
    }
    std::map<std::thread::id, int> m;
    for (int i = 0; i < n; ++i) { if (!m.count(ids[i])) { int k = m.size(); m[ids[i]] = k; } os[i] = m[ids[i]]; }
    for (auto* w : {&cnt, &th, &os, &ex}) w->resize(n);
    vp::J r = vp::J::obj(); r.set("cnt", cnt).set("th", th).set("os", os).set("ex", ex).set("outside", (int)outside).set("extra", extra);
    r.set("hw", ThreadPar::get_num_threads<T>(-1)).set("max", ThreadPar::get_num_threads<T>(nt));
    return r;
}
static vp::J pfor(const vp::J& op) {
    const std::string& tp = op["tp"].S();
    if (tp == "none") return pforT<ThreadPar::Type::NONE>(op);
    if (tp == "std") return pforT<ThreadPar::Type::STD>(op);
#ifdef WITH_OPENMP
    if (tp == "omp") { omp_set_dynamic(0); return pforT<ThreadPar::Type::OMP>(op); }
#endif
    std::_Exit(3);
}
// the mutexes themselves: a try on a held lock fails, on a free one succeeds and holds it
template <class M> static vp::J mtx() {
    M m; vp::J r = vp::J::obj(); bool a, b, c, d;
    m.lock(); std::thread([&] { a = m.try_lock(); }).join(); m.unlock();
    std::thread([&] { b = m.try_lock(); if (b) m.unlock(); }).join();
    c = m.try_lock(); std::thread([&] { d = m.try_lock(); }).join(); if (c) m.unlock();
    { std::lock_guard<M> g(m); }
    { std::unique_lock<M> g(m, std::try_to_lock); r.set("free", g.owns_lock()); }
    r.set("held", a).set("after", b).set("took", c).set("held2", d).set("type", int(M::parallel_type));
    return r;
}
int main(int argc, char** argv) {
    return vp::run(argc, argv, [](const vp::J& op) -> vp::J {
        const std::string& o = op["op"].S();
        if (o == "case") return vp::J();
        if (o == "pfor") return pfor(op);
        if (o == "mutex") {
            const std::string& tp = op["tp"].S();
            if (tp == "none") return mtx<mutex_none>();
            if (tp == "std") return mtx<mutex_std>();
#ifdef WITH_OPENMP
            if (tp == "omp") return mtx<mutex_omp>();
#endif
            std::_Exit(3);
        }
        vp::J e = vp::J::obj(); e.set("op", "sched");
        vp::trace().put(e);
        if (o == "sched") sched(op);
        else if (o == "stress") stress<mutex_std>(op, false);
#ifdef WITH_OPENMP
        else if (o == "ostress") stress<mutex_omp>(op, op["region"].B());
#endif
        else std::_Exit(3);
        return e;
    });
}
