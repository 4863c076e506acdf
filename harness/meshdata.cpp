// Driver: data of mesh functions on the elements of a mesh - connectivity of a cell, gathering, renumbering of nodes.
#include "inmost.h"
#include "vp.hpp"
#include <memory>
#include "anifem++/inmost_interface/ordering.h"
using namespace Ani::DofT;
using vp::J;
typedef std::shared_ptr<BaseDofMap> P;
typedef std::vector<int> Vs;
static P build(const J& t) {
    const std::string& k = t["k"].S();
    if (k == "U") { std::array<unsigned, NGEOM_TYPES> n; for (int i = 0; i < 6; ++i) n[i] = t["n"][i].I(); return std::make_shared<UniteDofMap>(n); }
    if (k == "S") { DofSymmetries d; d.set(); for (int x = 0; x < 6; ++x) for (size_t g = 0; g < t["s"][x].size(); ++g) if (t["s"][x][g].I()) d.add(NumToGeomType(x), g, t["s"][x][g].I());
        return std::make_shared<UniteDofMap>(d); }
    if (k == "V") return std::make_shared<VectorDofMap>(t["d"].I(), build(t["b"]));
    std::vector<P> v; for (auto& x : t["p"].a) v.push_back(build(x));
    return std::make_shared<ComplexDofMap>(v);
}
struct World {
    INMOST::Mesh m; std::map<Vs, INMOST::HandleType> at; std::map<INMOST::HandleType, Vs> of; std::vector<INMOST::HandleType> cells; unsigned rnd = 1;
    INMOST::Tag tag(int id) { INMOST::Tag t; t.m = &m; t.id = id; return t; }
    unsigned next(unsigned n) { rnd = rnd * 1103515245u + 12345u; return (rnd >> 16) % n; }
    template <class T> void mix(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next(i)]); }
    INMOST::HandleType add(Vs vs, INMOST::ElementType t) {
        std::sort(vs.begin(), vs.end()); auto i = at.find(vs); if (i != at.end()) return i->second;
        INMOST::Row r; r.t = t;
        if (vs.size() > 1) for (size_t k = 0; k < vs.size(); ++k) { Vs w = vs; w.erase(w.begin() + k); r.low.push_back(add(w, t >> 1)); }
        mix(r.low);
        m.rows.push_back(r); INMOST::HandleType h = m.rows.size() - 1; at[vs] = h; of[h] = vs; return h;
    }
    World(const J& op) {
        rnd = op["seed"].I();
        for (auto& c : op["cells"].a) { Vs v = c.ints(); auto h = add(v, INMOST::CELL); auto& hi = m.rows[h].high; hi.clear(); for (int x : v) hi.push_back(at.at(Vs{x})); cells.push_back(h); }
        if (op.has("xyz")) for (int i = 0; i < (int)op["xyz"].size(); ++i) { auto k = at.find(Vs{i}); if (k != at.end()) for (int d = 0; d < 3; ++d) m.rows[k->second].xyz.push_back(op["xyz"][i][d].I()); }
        m.global = tag(101);
        for (int w = 0; w < 2; ++w) { const char* nm = w ? "new" : "old"; if (op.has(nm)) for (int i = 0; i < (int)op[nm].size(); ++i) { auto k = at.find(Vs{i}); if (k != at.end()) m.rows[k->second].integer[100 + w] = op[nm][i].I(); } }
        if (op.has("tags")) for (size_t q = 0; q < op["tags"].size(); ++q) for (auto& e : op["tags"][q].a) {
            std::vector<double> a; for (int x : e["a"].ints()) a.push_back(x);
            auto k = at.find(e["v"].ints()); if (k == at.end()) std::_Exit(3);
            if (!e["no"].B()) m.rows[k->second].real[q] = a; }
    }
    J name(INMOST::HandleType h) { auto i = of.find(h); J j = J::arr(); if (i != of.end()) for (int v : i->second) j.push(v); return j; }
};
// a random access iterator that only writes, as a container of the user would be written to
int main(int argc, char** argv) {
    return vp::run(argc, argv, [&](const J& op) -> J {
        const std::string& o = op["op"].S();
        if (o == "case") return J();
        if (o == "rank") {
            std::array<unsigned char, 4> p; auto g = op["g"].ints(); int w = op["how"].I();
            if (w == 0) p = Ani::createOrderPermutation(g.data());
            else if (w == 1) { std::vector<long> q(g.begin(), g.end()); p = Ani::createOrderPermutation(q.data()); }
            else { std::vector<unsigned> q(g.begin(), g.end()); p = Ani::createOrderPermutation(q.data()); }
            J r = J::arr(); for (int i = 0; i < 4; ++i) r.push((int)p[i]); return r;
        }
        if (o == "sign") {
            std::array<unsigned char, 4> p; for (int i = 0; i < 4; ++i) p[i] = op["s"][i].I();
            J r = J::arr(); for (int x = 0; x < 5; ++x) { J w = J::arr(); for (int e = 0; e < GeomTypeTetElems(NumToGeomType(x)); ++e) w.push(Ani::isPositivePermutationOrient(NumToGeomType(x), e, p.data())); r.push(w); }
            return r;
        }
        World w(op);
        if (o == "conn") {
            INMOST::Cell c(&w.m, w.cells[op["c"].I()]); bool re = op["re"].B(), pr = op["pr"].B(); J n = J::arr(), e = J::arr(), f = J::arr(); int how = op["how"].I();
            INMOST::ElementArray<INMOST::Node> an(&w.m, 4); INMOST::ElementArray<INMOST::Edge> ae(&w.m, 6); INMOST::ElementArray<INMOST::Face> af(&w.m, 4);
            if (how == 0) Ani::collectConnectivityInfo(c, an, ae, af, re, pr);
            else if (how == 1) { INMOST::Node xn[4]; INMOST::Edge xe[6]; INMOST::Face xf[4]; Ani::collectConnectivityInfo(c, xn, xe, xf, re, pr);
                for (int i = 0; i < 6; ++i) { if (i < 4) an.data()[i] = xn[i].GetHandle(), af.data()[i] = xf[i].GetHandle(); ae.data()[i] = xe[i].GetHandle(); } }
            else Ani::collectConnectivityInfo(c, an.data(), ae.data(), af.data(), re, pr);
            for (int i = 0; i < 4; ++i) n.push(w.name(an.data()[i]));
            if (pr) { for (int i = 0; i < 6; ++i) e.push(w.name(ae.data()[i])); for (int i = 0; i < 4; ++i) f.push(w.name(af.data()[i])); }
            return J::obj().set("n", n).set("e", e).set("f", f);
        }
        P m = build(op["term"]);
        if (o == "gather" || o == "gathers") {
            auto arr = op["arr"].ints(); INMOST::ElementArray<INMOST::Node> n(&w.m, 4); INMOST::ElementArray<INMOST::Edge> e(&w.m, 6); INMOST::ElementArray<INMOST::Face> f(&w.m, 4);
            static const int ev[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
            auto get = [&](Vs v) { std::sort(v.begin(), v.end()); return w.at.at(v); };
            std::vector<long> g;
            for (int i = 0; i < 4; ++i) { n.data()[i] = get(Vs{arr[i]}); f.data()[i] = get(Vs{arr[i], arr[(i + 1) % 4], arr[(i + 2) % 4]}); g.push_back(INMOST::Node(&w.m, n.data()[i]).Integer(w.tag(100))); }
            for (int i = 0; i < 6; ++i) e.data()[i] = get(Vs{arr[ev[i][0]], arr[ev[i][1]]});
            INMOST::Cell c(&w.m, get(arr)); auto can = Ani::createOrderPermutation(g.data());
            auto comp = op["path"].ints(); const int* cp = comp.empty() ? nullptr : comp.data(); unsigned nc = comp.size();
            int N = m->NumDofOnTet(); std::vector<double> out(N + 1, -777);
            bool av = op["avail"].B(), hh = op["how"].I(); std::vector<INMOST::Tag> ts; for (size_t q = 0; q < op["tags"].size(); ++q) ts.push_back(w.tag(q));
            double* it = out.data();
            if (o == "gather") {
                if (hh) av ? Ani::GatherDataOnElement<true>(ts[0], *m, &w.m, c.GetHandle(), f.data(), e.data(), n.data(), can.data(), it, cp, nc)
                           : Ani::GatherDataOnElement<false>(ts[0], *m, &w.m, c.GetHandle(), f.data(), e.data(), n.data(), can.data(), it, cp, nc);
                else av ? Ani::GatherDataOnElement<true>(ts[0], *m, c, f, e, n, can.data(), it, cp, nc) : Ani::GatherDataOnElement<false>(ts[0], *m, c, f, e, n, can.data(), it, cp, nc);
            } else {
                if (hh) av ? Ani::GatherDataOnElement<true>(ts.data(), ts.size(), *m, &w.m, c.GetHandle(), f.data(), e.data(), n.data(), can.data(), it, cp, nc)
                           : Ani::GatherDataOnElement<false>(ts.data(), ts.size(), *m, &w.m, c.GetHandle(), f.data(), e.data(), n.data(), can.data(), it, cp, nc);
                else av ? Ani::GatherDataOnElement<true>(ts.data(), ts.size(), *m, c, f, e, n, can.data(), it, cp, nc) : Ani::GatherDataOnElement<false>(ts.data(), ts.size(), *m, c, f, e, n, can.data(), it, cp, nc);
            }
            J r = J::arr(); for (int i = 0; i < N + 1; ++i) r.push((long long)out[i]); return r;
        }
        if (o == "renum") {
            std::vector<INMOST::Tag> ts; for (size_t q = 0; q < op["tags"].size(); ++q) ts.push_back(w.tag(q));
            std::array<std::size_t, 4> sh; for (int i = 0; i < 4; ++i) sh[i] = op["shift"][i].I();
            int how = op["how"].I();
            if (how == 0) Ani::reorder_mesh_function_data(ts, *m, w.tag(100), w.tag(101), op["block"].I(), sh, op["packed"].B());
            else if (how == 1) Ani::reorder_fem_vars_data(ts, *m, w.tag(100), w.tag(101));
            else Ani::reorder_fem_vars_data(ts, *m, w.tag(100));
            J r = J::arr();
            for (size_t q = 0; q < op["tags"].size(); ++q) { J t = J::arr(); for (auto& e : op["tags"][q].a) { J a = J::arr(); auto& real = w.m.rows[w.at.at(e["v"].ints())].real; auto i = real.find(q); if (i != real.end()) for (double x : i->second) a.push((long long)x); t.push(a); } r.push(t); }
            return r;
        }
        std::_Exit(3);
    });
}
