// Driver: maps of degrees of freedom.  Registers hold maps; every query is answered through the public interface.
#include "vp.hpp"
#include <memory>
#include <iterator>
#include "anifem++/fem/tetdofmap.h"
using namespace Ani;
using namespace Ani::DofT;
using vp::J;
typedef std::shared_ptr<BaseDofMap> P;
static std::map<std::string, P> reg;

static UniteDofMap leaf(const J& t) {
    if (t["k"].S() == "U") { std::array<uint, NGEOM_TYPES> n; for (int i = 0; i < 6; ++i) n[i] = t["n"][i].I(); return UniteDofMap(n); }
    const J& s = t["s"];
    DofSymmetries d;
    if (t.has("add")) { bool any = false;
        for (int x = 0; x < 6; ++x) for (size_t g = 0; g < s[x].size(); ++g) if (s[x][g].I()) { d.add(NumToGeomType(x), g, s[x][g].I()); any = true; }
        if (!any) d.set(); }
    else d.set({(uint)s[0][0].I()}, {(uint)s[1][0].I(), (uint)s[1][1].I()}, {(uint)s[2][0].I(), (uint)s[2][1].I()}, {(uint)s[3][0].I(), (uint)s[3][1].I(), (uint)s[3][2].I()},
          {(uint)s[4][0].I(), (uint)s[4][1].I(), (uint)s[4][2].I()}, {(uint)s[5][0].I(), (uint)s[5][1].I(), (uint)s[5][2].I(), (uint)s[5][3].I(), (uint)s[5][4].I()});
    return UniteDofMap(d);
}
static P build(const J& t) {
    const std::string& k = t["k"].S();
    if (k == "U" || k == "S") return std::make_shared<UniteDofMap>(leaf(t));
    if (k == "V") return std::make_shared<VectorDofMap>(t["d"].I(), build(t["b"]));
    std::vector<P> v; for (auto& x : t["p"].a) v.push_back(build(x));
    return std::make_shared<ComplexDofMap>(v);
}
// ---- compile-time maps
typedef UniteDofMap U; typedef VectorDofMapC<U> VU; typedef VectorDofMapC<VU> VVU;
typedef ComplexDofMapC<U, U> CUU; typedef ComplexDofMapC<U, VU> CUV; typedef ComplexDofMapC<U, U, U> CUUU; typedef ComplexDofMapC<CUU, VU> CCV; typedef VectorDofMapC<CUU> VCUU;
typedef ComplexDofMapC<VU, U, VU> CVUV; typedef VectorDofMapC<CUV> VCUV; typedef ComplexDofMapC<VCUU, U> CVCU;
template <class M> struct Mk;
template <> struct Mk<U> { static U go(const J& t) { return leaf(t); } static std::string sh() { return "L"; } };
template <class B> struct Mk<FemComDetails::VectorDofMapCImpl<true, B>> { static VectorDofMapC<B> go(const J& t) { return VectorDofMapC<B>(t["d"].I(), Mk<B>::go(t["b"])); } static std::string sh() { return "V(" + Mk<B>::sh() + ")"; } };
template <class... B> struct Mk<FemComDetails::ComplexDofMapCImpl<true, B...>> {
    typedef ComplexDofMapC<B...> C;
    template <size_t... I> static C mk(const J& t, std::index_sequence<I...>) { return C(Mk<B>::go(t["p"][(int)I])...); }
    template <size_t... I> static C st(const J& t, std::index_sequence<I...>) { C c; int d[] = {(c.template set<I>(Mk<B>::go(t["p"][(int)I])), 0)...}; (void)d;
        int e[] = {(c.template set<I>(Mk<B>::go(t["p"][(int)I])), 0)...}; (void)e; return c; }
    static C go(const J& t) { return t.has("set") ? st(t, std::index_sequence_for<B...>()) : mk(t, std::index_sequence_for<B...>()); }
    static std::string sh() { std::string s = "C("; std::string a[] = {Mk<B>::sh()...}; for (auto& x : a) s += x; return s + ")"; }
};
static std::string shape(const J& t) { const std::string& k = t["k"].S(); if (k == "U" || k == "S") return "L"; if (k == "V") return "V(" + shape(t["b"]) + ")"; std::string s = "C("; for (auto& x : t["p"].a) s += shape(x); return s + ")"; }
template <class M> static bool tryT(const J& t, P& out) { if (shape(t) != Mk<M>::sh()) return false; out = std::make_shared<M>(Mk<M>::go(t)); return true; }
static P buildT(const J& t) {
    P p;
    if (tryT<VU>(t, p) || tryT<VVU>(t, p) || tryT<CUU>(t, p) || tryT<CUV>(t, p) || tryT<CUUU>(t, p) || tryT<CCV>(t, p) || tryT<VCUU>(t, p) || tryT<CVUV>(t, p) || tryT<VCUV>(t, p) || tryT<CVCU>(t, p)) return p;
    std::fprintf(stderr, "no compile-time shape %s\n", shape(t).c_str()); std::_Exit(3);
}
// ---- observations
static J lo2(const LocalOrder& o) { return J::arr().push(GeomTypeToNum(o.etype)).push((int)o.nelem).push((long long)o.leid).push((int)o.stype).push((int)o.lsid); }
static J lo6(const LocalOrder& o) { J j = J::arr(); j.push((long long)o.gid); J r = lo2(o); for (auto& x : r.a) j.push(x); return j; }
template <class A> static J arr6(const A& a) { J j = J::arr(); for (int i = 0; i < 6; ++i) j.push((long long)a[i]); return j; }
static J view(const BaseDofMap& m) {
    J sym = J::arr(), def = J::arr(), nd = J::arr(), ndt = J::arr(), tab = J::arr(), ty = J::arr();
    for (int x = 0; x < 6; ++x) {
        auto et = NumToGeomType(x);
        J b = J::arr(); auto s = m.SymComponents(et); for (int i = 0; i < 8; ++i) if (s & (1 << i)) b.push(i);
        sym.push(b); def.push(m.DefinedOn(et));
        nd.push((long long)(m.NumDofs()[x] == m.NumDof(et) ? (long long)m.NumDof(et) : -1)); ndt.push((long long)(m.NumDofsOnTet()[x] == m.NumDofOnTet(et) ? (long long)m.NumDofOnTet(et) : -1));
    }
    uint n = m.NumDofOnTet();
    for (uint i = 0; i < n && i < 5000; ++i) { auto o = m.LocalOrderOnTet(TetOrder(i)); tab.push(o.gid == i ? lo2(o) : J(-1)); ty.push(GeomTypeToNum(m.TypeOnTet(i))); }
    return J::obj().set("nd", nd).set("ndt", ndt).set("tot", (long long)n).set("mask", (long long)m.GetGeomMask()).set("sym", sym).set("def", def).set("table", tab).set("types", ty);
}
static J dump(const BaseDofMap& m) {
    typedef BaseDofMap::BaseTypes T;
    uint at = m.ActualType();
    if (at == (uint)T::UniteType) return J::obj().set("k", "U").set("n", arr6(m.NumDofs()));
    if (at == (uint)T::VectorType || at == (uint)T::VectorTemplateType) { int i = 0; auto s = const_cast<BaseDofMap&>(m).GetSubDofMap(&i, 1); return J::obj().set("k", "V").set("d", (long long)m.NestedDim()).set("b", dump(*s)); }
    J p = J::arr();
    for (int i = 0; i < (int)m.NestedDim(); ++i) { auto s = const_cast<BaseDofMap&>(m).GetSubDofMap(&i, 1); p.push(dump(*s)); }
    return J::obj().set("k", "C").set("p", p);
}
static TetGeomSparsity sparsity(const J& sp) { TetGeomSparsity s; for (int d = 0; d < 4; ++d) for (auto& e : sp[d].a) s.set((uchar)d, e.I()); return s; }
static J walk(const BaseDofMap& m, const TetGeomSparsity& s, bool pref) {
    J j = J::arr(); int g = 0;
    auto e = m.endBySparsity();
    for (auto it = m.beginBySparsity(s, pref); it != e && g < 5000; ++g) { j.push(lo6(*it)); if (g % 2) ++it; else { auto old = it++; if (old->gid != j.a.back().a[0].i) j.push(-2); } }
    return j;
}
template <class F> static bool throws(F f) { try { f(); return false; } catch (const std::out_of_range&) { return true; } }
int main(int argc, char** argv) {
    return vp::run(argc, argv, [&](const J& op) -> J {
        const std::string& o = op["op"].S();
        if (o == "case") { reg.clear(); return J(); }
        if (o == "build") { P p = op["tpl"].B() ? buildT(op["term"]) : build(op["term"]); reg[op["r0"].S()] = p; return view(*p); }
        if (o == "pow" || o == "powS" || o == "mul" || o == "merge" || o == "push" || o == "mergeS" || o == "compress" || o == "copy") {
            std::vector<P> a; std::vector<DofMap> d;
            for (auto& x : op["a"].a) { a.push_back(reg.at(x.S())); d.push_back(DofMap(a.back())); }
            P r;
            if (o == "pow") r = pow(d[0], op["k"].I()).base();
            else if (o == "powS") r = (d[0] ^ (uint)op["k"].I()).base();
            else if (o == "mul") r = (d[0] * d[1]).base();
            else if (o == "merge") r = merge(d).base();
            else if (o == "mergeS") r = merge_with_simplifications(d).base();
            else if (o == "compress") r = std::make_shared<ComplexDofMap>(ComplexDofMap::makeCompressed(a));
            else if (o == "copy") r = a[0]->Copy();
            else { auto c = std::make_shared<ComplexDofMap>(); for (auto& x : a) c->PushBack(x); r = c; }
            reg[op["r0"].S()] = r;
            return J::obj().set("term", dump(*r)).set("view", view(*r));
        }
        if (o == "eq") { const BaseDofMap &a = *reg.at(op["a"].S()), &b = *reg.at(op["b"].S()); DofMap da(reg.at(op["a"].S())), db(reg.at(op["b"].S())); return J::arr().push(a == b).push(a != b).push(db == da).push(db != da); }
        P p = reg.at(op["r0"].S());
        const BaseDofMap& m = *p;
        if (o == "geom") {
            J r = J::arr();
            for (int x = 0; x < 6; ++x) { auto et = NumToGeomType(x); for (int e = 0; e < GeomTypeTetElems(et); ++e) for (uint i = 0; i < m.NumDof(et); ++i) {
                LocGeomOrder g(et, e, i); auto ext = m.TetDofIDExt(g); auto lo = m.LocalOrderOnTet(g); auto at = m.at(g);
                J q = J::arr().push((long long)m.TetDofID(g)).push((long long)ext.first); J z = lo2(lo);
                if (lo.gid != ext.first || at.gid != lo.gid || at.leid != lo.leid || LocSymOrder(lo.stype, lo.lsid) != ext.second) z.a[0] = J(-7);
                for (auto& y : z.a) q.push(y); r.push(q); } }
            return r;
        }
        if (o == "count") { J r = J::arr(); for (int i = 0; i < 64; ++i) r.push((long long)m.NumDofOnTet((uchar)i)); return r; }
        if (o == "valid") {
            const J& g = op["g"]; uint i = op["i"].I(); LocGeomOrder lg(NumToGeomType(g[0].I()), g[1].I(), g[2].I());
            LocalOrder lo(TetOrder(i), lg, LocSymOrder(g[3].I(), g[4].I()));
            return J::obj().set("tet", m.isValidIndex(TetOrder(i))).set("geom", m.isValidIndex(lg)).set("full", m.isValidIndex(lo)).set("sym", m.isValidIndex(lo, true))
                .set("thr", J::arr().push(throws([&] { m.at(TetOrder(i)); })).push(throws([&] { m.at(lg); })))
                // the meaning of an address does not depend on the map
                .set("addr", J::arr().push(lg.isValid()).push(lo.isValid()).push(lo.isValid(true)).push(lo.getLocSymOrder().isValid())
                    .push(LocalOrder(TetOrder(), lg).isValid()).push(LocalOrder(TetOrder(i), LocGeomOrder()).isValid()).push(LocalOrder(i, lg.etype, lg.nelem, uint(-1)).isValid())
                    .push(LocalOrder().isValid()).push(ElemOrder().isValid()).push(ElemOrder(lg.etype, i).isValid())
                    .push(LocalOrder(i, lg.etype, lg.nelem, lg.leid).isValid(true))
                    .push(lo.getGeomOrder() == lg && !(lo.getGeomOrder() != lg) && lo.getTetOrder() == TetOrder(i) && lo.getLocSymOrder() == LocSymOrder(g[3].I(), g[4].I()))
                    .push(lg == LocGeomOrder(lg.etype, lg.nelem + 1, lg.leid) || lg == LocGeomOrder(lg.etype, lg.nelem, lg.leid + 1) || lg == LocGeomOrder(CELL + EDGE_ORIENT, lg.nelem, lg.leid)));
        }
        if (o == "iter") {
            J f = J::arr(), b = J::arr(), at = J::arr(), cmp = J::arr(); int g = 0;
            for (auto it = m.begin(); it != m.end() && g < 5000; ++g) { f.push(lo6(*it)); if (g % 2) ++it; else it++; }
            if (m.NumDofOnTet() > 0) {
                auto it = m.end(); g = 0; do { if (g++ % 2) --it; else it--; b.push(lo6(*it)); } while (it != m.begin() && g < 5000);
                int x = op["a"].I(), y = op["b"].I(); auto i1 = m.begin() + x; auto i2 = i1; at.push(lo6(*i1)); i2 += (y - x); at.push(lo6(*i2)); at.push(lo6(i1[y - x])); auto i3 = m.end(); i3 -= ((int)m.NumDofOnTet() - y); at.push(lo6(*i3.operator->()));
                auto c1 = m.begin() + x, c2 = y + m.begin();
                cmp.push((long long)(c2 - c1)).push(c1 == c2).push(c1 != c2).push(c1 < c2).push(c1 > c2).push(c1 <= c2).push(c1 >= c2);
            }
            return J::obj().set("fwd", f).set("bwd", b).set("at", at).set("cmp", cmp);
        }
        if (o == "sparse") { auto s = sparsity(op["sp"]); return J::obj().set("plain", walk(m, s, false)).set("geom", walk(m, s, true)); }
        auto path = op.has("path") ? op["path"].ints() : std::vector<int>();
        if (o == "sub") {
            if (op["wrap"].B()) { auto s = DofMap(p).GetSubDofMap(path.data(), path.size()); return s.base() ? dump(*s.base()) : J::obj().set("k", "none"); }
            auto s = p->GetSubDofMap(path.data(), path.size()); return s ? dump(*s) : J::obj().set("k", "none");
        }
        if (o == "nest") {
            NestedDofMap own; NestedDofMapView look; const NestedDofMapBase* nb;
            int cut = op["cut"].I();   // the path may be followed in two steps: a view of a view
            if (op["own"].B()) { own = m.GetNestedDofMap(path.data(), cut); nb = &own; } else { look = m.GetNestedDofMapView(path.data(), cut); nb = &look; }
            if (!nb->base()) return J::obj().set("none", true);
            NestedDofMap own2; NestedDofMapView look2;
            if (cut < (int)path.size()) { std::vector<int> rest(path.begin() + cut, path.end()); rest.insert(rest.begin(), 0);
                if (op["own"].B()) { own2 = nb->GetNestedDofMap(rest.data(), rest.size()); nb = &own2; } else { look2 = nb->GetNestedDofMapView(rest.data(), rest.size()); nb = &look2; }
                if (!nb->base()) return J::obj().set("none", true); }
            const NestedDofMapBase& n = *nb;
            J tab = J::arr(), geo = J::arr(), ins = J::arr();
            uint tot = n.NumDofOnTet();
            for (uint i = 0; i < tot; ++i) tab.push(lo6(n.LocalOrderOnTet(TetOrder(i))));
            for (int x = 0; x < 6; ++x) { auto et = NumToGeomType(x); for (int e = 0; e < GeomTypeTetElems(et); ++e) for (uint i = 0; i < n.NumDof(et); ++i) {
                LocGeomOrder g(et, e, i); J q = J::arr().push((long long)n.TetDofID(g)); auto lo = n.LocalOrderOnTet(g); J z = lo6(lo); if (n.TetDofIDExt(g).first != n.TetDofID(g)) z.a[0] = J(-7); for (auto& y : z.a) q.push(y); geo.push(q); } }
            for (uint i = 0; i < m.NumDofOnTet(); ++i) { auto lo = m.LocalOrderOnTet(TetOrder(i)); bool a = n.isValidOutputIndex(TetOrder(i)), b = n.isValidOutputIndex(lo.getGeomOrder()), c = n.isValidOutputIndex(lo); if (a == b && b == c) ins.push(a); else ins.push(-1); }
            auto s = sparsity(op["sp"]);
            return J::obj().set("none", false).set("nd", arr6(n.NumDofs())).set("tot", (long long)tot).set("table", tab).set("geom", geo).set("inside", ins).set("plain", walk(n, s, false)).set("pref", walk(n, s, true));
        }
        if (o == "nestq") {   // what a user reads off a nested map itself: iteration, parts, equality, copies
            auto path2 = op["path2"].ints(), more = op["more"].ints();
            bool isown = op["own"].B(); NestedDofMap o1, o2; NestedDofMapView v1, v2; NestedDofMapBase *a, *b;
            if (isown) { o1 = m.GetNestedDofMap(path.data(), path.size()); o2 = m.GetNestedDofMap(path2.data(), path2.size()); a = &o1; b = &o2; }
            else { v1 = m.GetNestedDofMapView(path.data(), path.size()); v2 = m.GetNestedDofMapView(path2.data(), path2.size()); a = &v1; b = &v2; }
            J r = J::obj(); const NestedDofMapBase& ca = *a;
            auto cp = a->Copy();
            r.set("eq", J::arr().push(*a == *b).push(*b == *a).push(*a != *b).push(*a == *cp).push(*cp == *a));
            if (!a->base()) return r.set("none", true);
            J sub = J::arr(); more.insert(more.begin(), 0);
            auto sb = [&](const std::vector<int>& q) { auto s = a->GetSubDofMap(q.data(), q.size()); auto cs = ca.GetSubDofMap(q.data(), q.size()); J x = s ? dump(*s) : J::obj().set("k", "none"); J y = cs ? dump(*cs) : J::obj().set("k", "none"); sub.push(x.str() == y.str() ? x : J(-1)); };
            sb({0}); sb(more); sb({1}); sb({});
            J f = J::arr(), bw = J::arr(), tp = J::arr(), sym = J::arr(), def = J::arr(); int g = 0; const BaseDofMap& n = *cp;
            for (auto it = n.begin(); it != n.end() && g < 5000; ++g) { f.push(lo6(*it)); tp.push(GeomTypeToNum(n.TypeOnTet(it - n.begin()))); if (g % 2) ++it; else it++; }
            if (n.NumDofOnTet()) { auto it = n.end(); do { if (g++ % 2) --it; else it--; bw.push(lo6(*it.operator->())); } while (it != n.begin() && g < 10000); }
            for (int x = 0; x < 6; ++x) { auto et = NumToGeomType(x); J bb = J::arr(); auto s = n.SymComponents(et); for (int i = 0; i < 8; ++i) if (s & (1 << i)) bb.push(i); sym.push(bb); def.push(n.DefinedOn(et)); }
            a->Clear();
            r.set("none", false).set("sub", sub).set("fwd", f).set("bwd", bw).set("types", tp).set("sym", sym).set("def", def).set("mask", (long long)n.GetGeomMask()).set("ndt", arr6(n.NumDofsOnTet()))
             .set("clear", a->base() == nullptr && a->m_shiftOnTet == 0 && a->m_shiftNumDof == std::array<uint, 6>{});
            return r;
        }
        if (o == "comp") {
            J t = J::arr(), bk = J::arr(), el = J::arr();
            auto v = dynamic_cast<const VectorDofMap*>(&m); auto c = dynamic_cast<const ComplexDofMap*>(&m);
            for (uint i = 0; i < m.NumDofOnTet(); ++i) { auto k = v ? v->ComponentID(TetOrder(i)) : c->ComponentID(TetOrder(i)); t.push(J::arr().push((long long)k.gid.gid).push((long long)k.cgid.gid).push((long long)k.part_id)); bk.push((long long)(v ? v->TetDofID(k.part_id, k.cgid) : c->TetDofID(k.part_id, k.cgid))); }
            for (int x = 0; x < 6; ++x) { J q = J::arr(); for (uint i = 0; i < m.NumDof(NumToGeomType(x)); ++i) { ElemOrder eo(NumToGeomType(x), i); auto k = v ? v->ComponentID(eo) : c->ComponentID(eo); q.push(J::arr().push(GeomTypeToNum(k.etype)).push((long long)k.gid).push((long long)k.cgid).push((long long)k.part_id)); } el.push(q); }
            return J::obj().set("tet", t).set("back", bk).set("elem", el);
        }
        std::_Exit(3);
    });
}
