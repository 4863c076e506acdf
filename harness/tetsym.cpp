// Driver: permutations of the vertices acting on degrees of freedom; selections of elements of the tetrahedron.
#include "vp.hpp"
#include <memory>
#include "anifem++/fem/tetdofmap.h"
using namespace Ani;
using namespace Ani::DofT;
using vp::J;
typedef std::shared_ptr<BaseDofMap> P;
static P build(const J& t) {
    const std::string& k = t["k"].S();
    if (k == "U") { std::array<uint, NGEOM_TYPES> n; for (int i = 0; i < 6; ++i) n[i] = t["n"][i].I(); return std::make_shared<UniteDofMap>(n); }
    if (k == "S") { DofSymmetries d; d.set(); for (int x = 0; x < 6; ++x) for (size_t g = 0; g < t["s"][x].size(); ++g) if (t["s"][x][g].I()) d.add(NumToGeomType(x), g, t["s"][x][g].I());
        for (int x = 0; x < 6; ++x) for (size_t g = 0; g < t["s"][x].size(); ++g) if ((long long)d.get(NumToGeomType(x), g) != t["s"][x][g].I()) std::_Exit(7);
        return std::make_shared<UniteDofMap>(d); }
    if (k == "V") return std::make_shared<VectorDofMap>(t["d"].I(), build(t["b"]));
    std::vector<P> v; for (auto& x : t["p"].a) v.push_back(build(x));
    return std::make_shared<ComplexDofMap>(v);
}
static J ar(std::initializer_list<long long> v) { J j = J::arr(); for (auto x : v) j.push(x); return j; }
static J perm(const std::array<uchar, 4>& p) { return ar({p[0], p[1], p[2], p[3]}); }
template <class F> static void loci(F f) {
    for (int x = 0; x < 6; ++x) { auto et = NumToGeomType(x); for (int e = 0; e < GeomTypeTetElems(et); ++e) for (int g = 0; g < DofSymmetries::symmetries_amount(et); ++g) for (int l = 0; l < DofSymmetries::symmetry_volume(et, g); ++l) f(et, e, g, l); }
}
int main(int argc, char** argv) {
    TetGeomSparsity a, b;
    return vp::run(argc, argv, [&](const J& op) -> J {
        const std::string& o = op["op"].S();
        if (o == "case") { a.clear(); b = TetGeomSparsity(); return J(); }
        if (o == "sp") {
            const std::string& f = op["f"].S(); int d = op["d"].I(), i = op["i"].I(); bool c = op["c"].B(); int via = op["via"].I();
            if (f == "set" || f == "unset") {
                bool s = f == "set";
                if (via) s ? a.set((uchar)d, i, c) : a.unset((uchar)d, i, c);
                else if (d == 0) s ? a.setNode(i) : a.unsetNode(i);
                else if (d == 1) s ? a.setEdge(i, c) : a.unsetEdge(i, c);
                else if (d == 2) s ? a.setFace(i, c) : a.unsetFace(i, c);
                else s ? a.setCell(c) : a.unsetCell(c);
            } else if (f == "setd") { if (via || d == 3) a.set((uchar)d); else if (d == 0) a.setNodes(); else if (d == 1) a.setEdges(); else a.setFaces(); }
            else if (f == "unsetd") { if (via || d == 3) a.unset((uchar)d); else if (d == 0) a.unsetNodes(); else if (d == 1) a.unsetEdges(); else a.unsetFaces(); }
            else if (f == "clear") a.clear();
            else if (f == "join") a.set(b);
            else if (f == "cut") a.unset(b);
            else if (f == "and") a = a & b;
            else if (f == "or") a = a | b;
            else if (f == "xor") a = a ^ b;
            else if (f == "not") a = ~a;
            else if (f == "swap") std::swap(a, b);
            else if (f == "bits") { a.clear(); int k = 0; static const int n[4] = {4, 6, 4, 1}; for (int q = 0; q < 4; ++q) for (int e = 0; e < n[q]; ++e, ++k) if (i >> k & 1) a.set((uchar)q, e); }
            J ids = J::arr(), ed = J::arr(), wd = J::arr(), w = J::arr();
            for (int q = 0; q < 4; ++q) {
                auto r = a.getElemsIds(q); J j = J::arr(); for (int k = 0; k < r.second; ++k) j.push((int)r.first[k]); ids.push(j); ed.push(a.empty(q));
                J v = J::arr(); int g = 0; for (auto p = a.beginPos(q); p.isValid() && g < 20; p = a.nextPosOnDim(p), ++g) v.push(p.elem_dim == q ? (int)p.elem_num : -1); wd.push(v);
            }
            int g = 0; for (auto p = a.beginPos(); p != a.endPos() && g < 40; p = a.nextPos(p), ++g) w.push(ar({p.elem_dim, p.elem_num}));
            return J::obj().set("ids", ids).set("empty", a.empty()).set("emptyd", ed).set("walk", w).set("walkd", wd);
        }
        uchar s[4] = {0, 1, 2, 3};
        if (op.has("s")) for (int i = 0; i < 4; ++i) s[i] = op["s"][i].I();
        if (o == "reorder") { J r = J::arr(); loci([&](uchar et, int e, int g, int l) { r.push((int)DofSymmetries::index_on_reorderd_elem(et, e, g, l, s)); }); return r; }
        if (o == "remap") {
            J y = J::arr(), p = J::arr(), ch = J::arr();
            loci([&](uchar et, int e, int g, int l) { auto q = S4::remap_local_order(LocalOrder(5, et, e, 7, g, l), s); y.push(ar({GeomTypeToNum(q.etype), q.nelem, q.stype, q.lsid})); });
            for (int x = 0; x < 6; ++x) { auto et = NumToGeomType(x); for (int e = 0; e < GeomTypeTetElems(et); ++e) {
                LocalOrder lo(5, et, e, 7); auto q = S4::remap_local_order(lo, s); p.push(ar({GeomTypeToNum(q.etype), q.nelem, q.stype, q.lsid}));
                ch.push(q.nelem == e ? S4::stabilizer_character(s, lo) : 0); } }
            return J::obj().set("sym", y).set("plain", p).set("char", ch);
        }
        if (o == "stab") {
            auto et = NumToGeomType(op["x"].I()); LocalOrder lo(0, et, op["e"].I(), 0, 0, 0), first(0, et, 0, 0, 0, 0);
            J gens = J::arr(); for (auto& g : S4::stabilizer_data(lo).generators) gens.push(perm(g));
            auto k = S4::symmetry_type_key(lo); int x = k.etype == (uchar)EDGE ? 1 : k.etype == (uchar)FACE ? 3 : k.etype == NODE ? 0 : k.etype == CELL ? 5 : -1;
            if (!(k == S4::symmetry_type_key(first)) || k < S4::symmetry_type_key(first)) x = -2;
            return J::obj().set("gens", gens).set("key", J::arr().push(x).push(k.oriented)).set("to", perm(S4::perm_vertex_to_repr(first, lo)));
        }
        if (o == "tables") {
            J e = J::arr(), f = J::arr(), ps = J::arr(), ev = J::arr(), fv = J::arr(), vol = J::arr(), am = J::arr();
            for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) e.push((int)S4::find_edge_elem(i, j));
            for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) for (int k = 0; k < 5; ++k) f.push((int)S4::find_face_elem(i, j, k));
            std::array<std::array<uchar, 4>, 24> all; S4::all_permutations(all); for (auto& p : all) ps.push(perm(p));
            for (int i = 0; i < 6; ++i) ev.push(ar({S4::edge_vertex(i, 0), S4::edge_vertex(i, 1)}));
            for (int i = 0; i < 4; ++i) fv.push(ar({S4::face_vertex(i, 0), S4::face_vertex(i, 1), S4::face_vertex(i, 2)}));
            for (int x = 0; x < 6; ++x) { auto et = NumToGeomType(x); J v = J::arr(); for (int g = 0; g < DofSymmetries::symmetries_amount(et); ++g) v.push((int)DofSymmetries::symmetry_volume(et, g)); vol.push(v); am.push((int)DofSymmetries::symmetries_amount(et)); }
            return J::obj().set("edge", e).set("face", f).set("perms", ps).set("id", perm(S4::identity_perm())).set("ev", ev).set("fv", fv).set("vol", vol).set("amount", am);
        }
        if (o == "perm") {
            P m = build(op["term"]); int n = m->NumDofOnTet(); std::vector<double> v(n * n + 1, 7); S4::build_dof_permutation(*m, s, v.data(), n);
            J r = J::arr(); if (v[n * n] != 7) r.push(-1);
            for (int j = 0; j < n; ++j) { J c = J::arr(); for (int i = 0; i < n; ++i) if (v[i + j * n] != 0) c.push(ar({i, (long long)v[i + j * n]})); r.push(c); }
            return r;
        }
        std::_Exit(3);
    });
}
