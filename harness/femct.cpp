// Compile-time operators: evaluation and integration on tetrahedra through the templates parameterized by the operator
// types, without work memory (stack), with exactly the announced work memory and with a dynamic memory pool.
// Events as in femrt.cpp, plus "pair" (which operator types), "mem": stack | plain | dyn, "tr": pt | tet | gen | fus.
#include "fem_common.hpp"
using namespace femc;
template <int N> using F = FemFix<N>;
typedef FemUnionT<F<FEM_P1>, F<FEM_B4>> Mini;
typedef FemUnionT<FemVec<3, FEM_P1>, FemVec<3, FEM_B4>> Mini3;
template <class A_, class B_> struct Pr { typedef A_ A; typedef B_ B; };
template <int I> struct Pair;
#define PAIR(i, A, B) template <> struct Pair<i> : Pr<A, B> {};
#define COMMA ,
PAIR(0, Operator<GRAD COMMA F<FEM_P1>>, Operator<GRAD COMMA F<FEM_P1>>)
PAIR(1, Operator<IDEN COMMA F<FEM_P2>>, Operator<IDEN COMMA F<FEM_P1>>)
PAIR(2, Operator<IDEN COMMA F<FEM_RT0>>, Operator<GRAD COMMA F<FEM_P2>>)
PAIR(3, Operator<DIV COMMA F<FEM_RT0>>, Operator<IDEN COMMA F<FEM_P0>>)
PAIR(4, Operator<CURL COMMA F<FEM_ND0>>, Operator<IDEN COMMA F<FEM_ND0>>)
PAIR(5, Operator<GRAD COMMA FemVec<3 COMMA FEM_P1>>, Operator<GRAD COMMA FemVec<3 COMMA FEM_P1>>)
PAIR(6, Operator<DIV COMMA FemVec<3 COMMA FEM_P2>>, Operator<IDEN COMMA F<FEM_P1>>)
typedef FemVecT<2, FemCom<F<FEM_P1>, F<FEM_P0>>> Com2;
PAIR(7, Operator<IDEN COMMA Com2>, Operator<IDEN COMMA Com2>)
typedef FemCom<FemVec<2, FEM_P1>, F<FEM_P2>> ComV;
PAIR(8, Operator<GRAD COMMA ComV>, Operator<IDEN COMMA F<FEM_P1>>)
PAIR(9, Operator<GRAD COMMA Mini>, Operator<GRAD COMMA Mini>)
typedef FemVecT<3, Mini> MiniV;
PAIR(10, Operator<IDEN COMMA MiniV>, Operator<IDEN COMMA F<FEM_RT0>>)
PAIR(11, Operator<IDEN COMMA Mini3>, Operator<GRAD COMMA F<FEM_B2>>)
PAIR(12, Operator<IDEN COMMA F<FEM_CR1>>, Operator<IDEN COMMA F<FEM_B2>>)
PAIR(13, Operator<DUDX COMMA F<FEM_P3>>, Operator<DUDZ COMMA F<FEM_CR1>>)
typedef FemCom<F<FEM_RT0>, F<FEM_P0>> ComR;
typedef FemCom<F<FEM_ND0>, F<FEM_P1>> ComN;
PAIR(14, Operator<IDEN COMMA ComR>, Operator<IDEN COMMA ComN>)
typedef FemVecT<3, F<FEM_P2>> VT2;
PAIR(15, Operator<DUDZ COMMA VT2>, Operator<IDEN COMMA F<FEM_ND0>>)
typedef FemCom<FemCom<F<FEM_P1>, F<FEM_P0>>, F<FEM_B4>> ComC;
PAIR(16, Operator<DUDY COMMA ComC>, Operator<IDEN COMMA ComC>)
typedef FemCom<Mini, Mini, F<FEM_P1>> ComM;
PAIR(17, Operator<DUDX COMMA ComM>, Operator<GRAD COMMA F<FEM_B4>>)
typedef FemUnionT<F<FEM_RT0>, FemVec<3, FEM_B4>> RTB;
PAIR(18, Operator<DIV COMMA RTB>, Operator<IDEN COMMA F<FEM_P0>>)
PAIR(19, Operator<CURL COMMA FemVec<3 COMMA FEM_P1>>, Operator<CURL COMMA F<FEM_ND0>>)
static const int NPAIR = 20;

static PlainMemoryX<> up(PlainMemory<> m) { PlainMemoryX<> r; r.dSize = m.dSize; r.iSize = m.iSize; return r; }
static PlainMemory<> get(Buf& B, PlainMemory<> m) { auto r = B.get(up(m)); m.ddata = r.ddata; m.idata = r.idata; return m; }
static const int FUS = 3;

// the operator types behind the run-time interface, plainly or through functions
inline unsigned fresh() { static unsigned n = 1; return ++n; }
template <class Op> struct Wrapped;
template <int OP, class T> struct Wrapped<Operator<OP, T>> {
    typedef ApplyOpFromTemplate<OP, T> type;
    static std::shared_ptr<ApplyOpBase> get(bool custom) {
        std::shared_ptr<ApplyOpBase> w = ApplyOp(type()).m_invoker;
        if (!custom) return w->Copy();
        static const unsigned label = fresh();     // equal for equal operators only
        ApplyOpCustom c(label, [w](AniMemoryX<>& m, ArrayView<>& U) { return (*w)(m, U); },
                        [w](uint q, uint f) { return w->getMemoryRequirements(q, f); }, w->Dim(), w->Nfa(), w->Order());
        return c.Copy();
    }
};

#ifdef WITH_EIGEN
// the overload for Eigen vectors and matrices (one tetrahedron, std::function callbacks); M may be too small on purpose
template <class A, class B, class TR, class Fun> static typename std::enable_if<!std::is_same<TR, DfuncTraitsFusive<>>::value>::type eigenform(const std::vector<std::vector<double>>& xs, const Fun& f, DenseMatrix<>& M, int ord, void* ud) {
    Eigen::Vector3d v[4];
    for (int i = 0; i < 4; ++i) v[i] << xs[i][0], xs[i][1], xs[i][2];
    size_t full = B::Nfa::value * A::Nfa::value;
    Eigen::MatrixXd R((long)B::Nfa::value, (long)A::Nfa::value - (M.size < full ? 1 : 0));
    R.setConstant(std::nan(""));
    std::function<TensorType(const std::array<double, 3>&, double*, std::pair<uint, uint>, void*, int)> g = f;
    fem3Dtet<A, B, TR>(v[0], v[1], v[2], v[3], g, R, ord, ud);
    for (size_t i = 0; i < M.size && i < (size_t)R.size(); ++i) M.data[i] = R.data()[i];
    M.nRow = R.rows(), M.nCol = R.cols();
}
template <class A, class B, class TR, class Fun> static typename std::enable_if<std::is_same<TR, DfuncTraitsFusive<>>::value>::type eigenform(const std::vector<std::vector<double>>&, const Fun&, DenseMatrix<>&, int, void*) { std::_Exit(3); }
#endif
template <class A, class B, class TR, class Fun> static void integral(const J& o, const Fun& f, Tens& td, DenseMatrix<>& M, Buf& buf) {
    const std::string& w = o["what"].S();
    char m = o["mem"].S()[0];
    auto xs = corners(o["T"]);
    int nt = (int)o["T"].size();
    auto XYZ = make_tetras(xs[0].data(), xs[1].data(), xs[2].data(), xs[3].data(), nt);
    if (m == 'x') { runtime<TR>(o, f, td, M, buf, Wrapped<A>::get(nt % 2), Wrapped<B>::get(o["pair"].I() % 2)); return; }
    DynMem<>& wm = dynmem();
    void* ud = &td;
    int loc = o.has("loc") ? o["loc"].I() : 0, ord = o.has("order") ? o["order"].I() : 0;
#define THREE(fun, ARGS, REQ, LAST) \
        if (m == 's') fun<A, B, TR, FUS>(ARGS f, M LAST); \
        else if (m == 'p') fun<A, B, TR>(ARGS f, M, get(buf, fun##_memory_requirements<A, B>(REQ)) LAST); \
        else fun<A, B, TR>(ARGS f, M, wm LAST);
#ifdef WITH_EIGEN
    if (w == "tet" && m == 'e') eigenform<A, B, TR>(xs, f, M, ord, ud);
    else
#endif
    if (w == "tet") { THREE(fem3Dtet, XYZ COMMA, ord COMMA nt, COMMA ord COMMA ud) }
    else if (w == "face") { THREE(fem3Dface, XYZ COMMA loc COMMA, ord COMMA nt, COMMA ord COMMA ud) }
    else if (w == "faceN") { THREE(fem3DfaceN, XYZ COMMA loc COMMA, ord COMMA nt, COMMA ord COMMA ud) }
    else if (w == "edge") { THREE(fem3Dedge, XYZ COMMA loc COMMA, ord COMMA nt, COMMA ord COMMA ud) }
    else if (w == "node") { THREE(fem3Dnode, XYZ COMMA loc COMMA, nt, COMMA ud) }
    else if (w == "pntL") {
        auto pl = bary(o), wg = weights(o);
        auto L = view(pl), W = view(wg);
        int q = (int)pl.size() / 4;
        THREE(fem3DpntL, XYZ COMMA L COMMA W COMMA, q COMMA nt, COMMA ud)
    } else if (w == "pntX") {
        auto px = points(o), wg = weights(o);
        auto Tt = tetra(xs);
        ArrayView<const double> X(px.data(), px.size());
        auto W = view(wg);
        if (m == 's') fem3DpntX<A, B, TR>(Tt, X, W, f, M, ud);
        else if (m == 'p') fem3DpntX<A, B, TR>(Tt, X, W, f, M, get(buf, fem3DpntX_memory_requirements<A, B>((int)px.size() / 3)), ud);
        else fem3DpntX<A, B, TR>(Tt, X, W, f, M, wm, ud);
    } else std::_Exit(3);
}
template <class Op> static void value(const J& o, DenseMatrix<>& M, Buf& buf) {
    char m = o["mem"].S()[0];
    if (m == 'x') { evaluate(o, M, buf, Wrapped<Op>::get(o["T"].size() % 2)); return; }
    auto xs = corners(o["T"]);
    int nt = (int)o["T"].size();
    std::vector<double> dofs;
    size_t nfa = Op::Nfa::value;
    for (int t = 0; t < nt; ++t) for (size_t i = 0; i < nfa; ++i) dofs.push_back((double)o["dofs"][t][i].i / std::sqrt((double)o["nU"][t][i].i));
    DenseMatrix<> dm(dofs.data(), nfa, nt);
    if (o["what"].S() == "applyL") {
        const double* x[4] = {xs[0].data(), xs[1].data(), xs[2].data(), xs[3].data()};
        auto XYZ = make_tetras(x[0], x[1], x[2], x[3], nt);
        auto pl = bary(o);
        if (m == 's') fem3DapplyL<Op, FUS>(XYZ, view(pl), dm, M);
        else if (m == 'p') fem3DapplyL<Op>(XYZ, view(pl), dm, M, get(buf, fem3DapplyL_memory_requirements<Op>((int)pl.size() / 4, nt)));
        else fem3DapplyL<Op>(XYZ, view(pl), dm, M, dynmem());
    } else {
        auto px = points(o);
        ArrayView<const double> X(px.data(), px.size());
        auto Tt = tetra(xs);
        ArrayView<> out(M.data, M.size);
        int q = (int)px.size() / 3;
        if (m == 's') fem3DapplyX<Op>(Tt, X, view(dofs), out);
        else if (m == 'p') fem3DapplyX<Op>(Tt, X, view(dofs), out, get(buf, fem3DapplyX_memory_requirements<Op>(q, 1)));
        else fem3DapplyX<Op>(Tt, X, view(dofs), out, dynmem());
        M.nRow = Op::Dim::value * q, M.nCol = 1;
    }
}

typedef void Run(const J&, Tens&, DenseMatrix<>&, Buf&);
template <int I> void run(const J& o, Tens& td, DenseMatrix<>& M, Buf& buf) {
    typedef typename Pair<I>::A A;
    typedef typename Pair<I>::B B;
    const std::string t = o["tr"].S();
    if (t == "none") value<A>(o, M, buf);
    else if (t == "pt") integral<A, B, DfuncTraits<PerPoint>>(o, tens, td, M, buf);
    else if (t == "tet") integral<A, B, DfuncTraits<PerTetra>>(o, tens, td, M, buf);
    else if (t == "gen") integral<A, B, DfuncTraits<TENSOR_GENERAL>>(o, tens, td, M, buf);
    else if (t == "fus") integral<A, B, DfuncTraitsFusive<>>(o, tensf, td, M, buf);
    else std::_Exit(3);
}
template <class Op> J shape(int how) {
    J r = J::obj();
    if (how) { auto w = Wrapped<Op>::get(how == 2); return r.set("nfa", (int)w->Nfa()).set("dim", (int)w->Dim()).set("oporder", (int)w->Order()); }
    return r.set("nfa", (int)Op::Nfa::value).set("dim", (int)Op::Dim::value).set("oporder", (int)Op::Order::value);
}
struct Entry { Run* run; J (*a)(int); J (*b)(int); };
extern Entry tab0[], tab1[], tab2[], tab3[], tab4[], tab5[], tab6[], tab7[];
#ifndef VPPART
#define VPPART -1
#endif
#define E(i) {run<i>, shape<Pair<i>::A>, shape<Pair<i>::B>}
#if VPPART == -1 || VPPART == 0
Entry tab0[] = {E(0), E(1), E(2)};
#endif
#if VPPART == -1 || VPPART == 1
Entry tab1[] = {E(3), E(4), E(5)};
#endif
#if VPPART == -1 || VPPART == 2
Entry tab2[] = {E(6), E(7), E(8)};
#endif
#if VPPART == -1 || VPPART == 3
Entry tab3[] = {E(9), E(10), E(11)};
#endif
#if VPPART == -1 || VPPART == 4
Entry tab4[] = {E(12), E(13)};
#endif
#if VPPART == -1 || VPPART == 5
Entry tab5[] = {E(14), E(15)};
#endif
#if VPPART == -1 || VPPART == 6
Entry tab6[] = {E(16), E(17)};
#endif
#if VPPART == -1 || VPPART == 7
Entry tab7[] = {E(18), E(19)};

static Entry& entry(int i) {
    if (i < 0 || i >= NPAIR) std::_Exit(3);
    if (i < 12) { Entry* t[] = {tab0, tab1, tab2, tab3}; return t[i / 3][i % 3]; }
    Entry* t[] = {tab4, tab5, tab6, tab7};
    return t[(i - 12) / 2][(i - 12) % 2];
}
int main(int argc, char** argv) {
    return vp::run(argc, argv, [](const J& o) -> J {
        const std::string& k = o["op"].S();
        if (k == "case") { dynmem() = DynMem<>(); return J(); }
        Entry& en = entry(o["pair"].I());
        if (k == "cshape") return o["side"].I() ? en.b(o["how"].I()) : en.a(o["how"].I());
        if (k != "fem") std::_Exit(3);
        size_t nr, nc;
        extent(o, nr, nc);
        std::vector<double> a(nr * nc, std::nan(""));
        bool cutA = o.has("cut") && o["cut"].S() == "A";
        if (cutA) a = std::vector<double>(nr * nc - 1);
        DenseMatrix<> A(a.data(), nr, nc, nr * nc - (cutA ? 1 : 0));
        Buf B;
        Tens td(o.has("D") ? o["D"] : vp::parse("{\"t\":\"N\",\"per\":false,\"c\":[]}"), o.has("alt") ? o["alt"] : J::arr(), o["tr"].S() == "tet");
        try { en.run(o, td, A, B); } catch (std::runtime_error& e) { J r = J::obj(); return r.set("refused", true); }
        if (o.has("cut")) { J r = J::obj(); return r.set("refused", false); }
        return residues(o, A);
    });
}
#endif
