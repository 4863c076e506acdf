"""Finite elements on tetrahedra: case generation for the checks F01-F06 (spec Fem, trace specification FemTrace)."""
from fractions import Fraction
from math import factorial, gcd
import itertools

from .core import CheckError

EIG = ("-DWITH_EIGEN", "-I/usr/include/eigen3")
ASAN = ("-fsanitize=address", "-fno-omit-frame-pointer")
EDGES = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
FACES = [(0, 1, 2), (1, 2, 3), (2, 3, 0), (3, 0, 1)]
LEAF = {  # name: (nfa, dim, degree of the polynomials, denominator, number of factors det in the denominator, terms)
    "P0": (1, 1, 0, 1, 0, 1), "P1": (4, 1, 1, 1, 0, 1), "P2": (10, 1, 2, 1, 0, 2), "P3": (20, 1, 3, 2, 0, 3),
    "B2": (6, 1, 2, 1, 0, 1), "B4": (1, 1, 4, 1, 0, 1), "CR1": (4, 1, 1, 1, 0, 2), "RT0": (4, 3, 1, 1, 1, 3), "ND0": (6, 3, 1, 1, 1, 2)}


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def det(T):
    return dot(sub(T[1], T[0]), cross(sub(T[2], T[0]), sub(T[3], T[0])))


def face_n2(T, f):
    a, b, c = (T[v] for v in FACES[f])
    n = cross(sub(b, a), sub(c, a))
    return dot(n, n)


def edge_n2(T, e):
    d = sub(T[EDGES[e][1]], T[EDGES[e][0]])
    return dot(d, d)


def leaf(k):
    return {"k": k}


def vec(n, a):
    return {"k": "vec", "n": n, "a": a}


def prod(*a):
    return {"k": "prod", "a": list(a)}


def union(*a):
    return {"k": "union", "a": list(a)}


def subs(sp):
    return [sp["a"]] * sp["n"] if sp["k"] == "vec" else sp["a"] if sp["k"] in ("prod", "union") else []


def nfa(sp):
    return LEAF[sp["k"]][0] if sp["k"] in LEAF else sum(map(nfa, subs(sp)))


def dim(sp):
    if sp["k"] in LEAF:
        return LEAF[sp["k"]][1]
    return dim(sp["a"][0]) if sp["k"] == "union" else sum(map(dim, subs(sp)))


def agg(sp, i):
    return LEAF[sp["k"]][i] if sp["k"] in LEAF else max(agg(s, i) for s in subs(sp))


def rad(sp, T):
    k = sp["k"]
    if k == "RT0":
        return [face_n2(T, f) for f in range(4)]
    if k == "ND0":
        return [edge_n2(T, e) for e in range(6)]
    return [1] * nfa(sp) if k in LEAF else sum((rad(s, T) for s in subs(sp)), [])


def opdim(op, d):
    return 3 * d if op == "GRAD" else d // 3 if op == "DIV" else d


def ops(sp):
    return ["IDEN", "GRAD", "DUDX", "DUDY", "DUDZ"] + (["DIV", "CURL"] if dim(sp) == 3 else [])


def degs(sp, op):
    """(degree, factors of det in denominators, other denominators)"""
    d = agg(sp, 2)
    if op == "IDEN":
        return d, agg(sp, 4), agg(sp, 3)
    return max(d - 1, 0), agg(sp, 4) + 1, agg(sp, 3)


def lcm(a, b):
    return a * b // gcd(a, b)


_mom = {}


def moments(k, n):
    """common denominator of the means of monomials of degree <= n over a k-simplex"""
    if (k, n) not in _mom:
        r = 1
        for m in range(n + 1):
            for e in itertools.combinations_with_replacement(range(k + 1), m):
                c = factorial(k)
                for i in range(k + 1):
                    c *= factorial(e.count(i))
                r = lcm(r, Fraction(c, factorial(m + k)).denominator)
        _mom[(k, n)] = r
    return _mom[(k, n)]


def factors(n, limit=20000):
    """n as a list of factors, each small"""
    r, cur, p = [], 1, 2
    while n > 1:
        while n % p:
            p += 1
        if cur * p > limit:
            r.append(cur)
            cur = 1
        cur *= p
        n //= p
        if p > 46336:
            raise CheckError("scale")
    return r + [cur]


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def tet(self, maxdet=4, size=2):
        while True:
            T = [[self.rng.randint(-size, size) for _ in range(3)] for _ in range(4)]
            if 0 < abs(det(T)) <= maxdet:
                return T

    def tets(self, f, maxdet=4, size=2):
        return [self.tet(maxdet, size) for _ in range(f)]

    def mat(self, r, c, m=2, sym=False, full=True):
        M = [[self.rng.randint(-m, m) for _ in range(c)] for _ in range(r)]
        if sym:
            for i in range(r):
                for j in range(i):
                    M[i][j] = M[j][i]
        return M

    def tensor(self, t, rows, cols, deg, per):
        """tensor of type t with polynomials of degree deg (0, 1)"""
        n = 1 + (3 if deg else 0)
        if t == "N":
            return {"t": "N", "per": False, "c": []}
        if t == "C":
            c = [self.mat(1, 1) for _ in range(n)]
            if not any(x[0][0] for x in c):
                c[0] = [[3]]
            return {"t": "C", "per": per, "c": c}
        return {"t": t, "per": per, "c": [self.mat(rows, cols, sym=(t == "S")) for _ in range(n)]}

    def traits(self, rows, cols, f, per_ok=True):
        """a tensor together with admissible traits and representations"""
        r = self.rng
        square = rows == cols
        deg = r.choice([0, 1])
        per = per_ok and f > 1 and r.random() < 0.7
        kinds = ["G"] * 4 + (["S", "C", "C", "N"] if square else [])
        t = r.choice(kinds)
        o = {}
        if t == "N":
            tr = r.choice(["pt", "tet", "sel", "nul", "cnul", "fus", "hnul"])
            if tr in ("pt", "tet"):
                o["alt"] = r.choice([["N"], ["N", "C", "G"], ["C", "N"], ["G", "N", "S"]])
            D = self.tensor("N", rows, cols, 0, False)
        elif t == "C":
            tr = r.choice(["pt", "tet", "sel", "sca", "csca", "cpt", "fus", "hcon", "hsca"])
            if tr in ("csca", "cpt", "hcon"):
                deg, per = 0, False
            if tr == "hsca":
                per = False
            if tr in ("pt", "tet"):
                o["alt"] = r.choice([["C"], ["C", "G"], ["G", "C", "S"], ["S"]])
            D = self.tensor("C", rows, cols, deg, per)
        elif t == "S":
            tr = r.choice(["pt", "tet", "sel", "sym", "cpt", "fus"])
            if tr == "cpt":
                deg, per = 0, False
            D = self.tensor("S", rows, cols, deg, per)
        else:
            tr = r.choice(["pt", "tet", "sel", "gen", "cpt", "cgen", "fus"] + (["hvec"] * 4 if rows == 3 and cols == 1 else []))
            if tr == "hvec":
                per = False
            if tr in ("cpt", "cgen"):
                deg, per = 0, False
            D = self.tensor("G", rows, cols, deg, per)
        o.update({"tr": tr, "D": D})
        return o, (1 if len(D["c"]) > 1 else 0)

    def points(self, q, den):
        res = []
        for _ in range(q):
            while True:
                p = [self.rng.randint(-1, den) for _ in range(3)]
                p.append(den - sum(p))
                if -2 <= p[3] <= den + 2:
                    break
            res.append(p)
        return res


def dets(T):
    r = 1
    for t in T:
        r = lcm(r, abs(det(t)))
    return r


def case_value(g, sp, op, f, tensor=True, q=None, what=None):
    r = g.rng
    what = what or r.choice(["applyL", "applyX"])
    if what == "applyX":
        f = 1
    T = g.tets(f)
    den = r.choice([2, 3, 4, 5])
    q = q or r.choice([1, 2, 3, 4])
    o = {"op": "fem", "what": what, "mem": r.choice(["plain", "dyn"]), "T": T, "sp": sp, "opr": op, "pts": g.points(q, den), "den": den,
         "how": r.randrange(4), "dofs": [[r.randint(-3, 3) for _ in range(nfa(sp))] for _ in T], "nU": [rad(sp, t) for t in T], "tr": "none"}
    d, nd, k = degs(sp, op)
    rows = opdim(op, dim(sp))
    dd = 0
    if tensor:
        m = r.choice([rows, rows, rows, 1, 2, 3])
        tr, dd = g.traits(m, rows, f)
        o.update(tr)
        rows = m
        o["rows"] = rows
    o["ext"] = [rows * q, f]
    S = dets(T) ** nd * k * den ** (d + dd)
    if S > 10 ** 9:
        return None
    o["S"] = factors(S)
    return o


def case_integral(g, spU, opU, spV, opV, f, what, maxdet=4, orderplus=None, points=None):
    r = g.rng
    if what == "pntX":
        f = 1
    T = g.tets(f, maxdet)
    o = {"op": "fem", "what": what, "mem": r.choice(["plain", "dyn"]), "T": T, "spU": spU, "opU": opU, "spV": spV, "opV": opV, "how": r.randrange(4),
         "nU": [rad(spU, t) for t in T], "nV": [rad(spV, t) for t in T]}
    rows, cols = opdim(opV, dim(spV)), opdim(opU, dim(spU))
    if what == "faceN":
        rows *= 3
    tr, dd = g.traits(rows, cols, f)
    o.update(tr)
    (du, nu, ku), (dv, nv, kv) = degs(spU, opU), degs(spV, opV)
    n = du + dv + dd
    S = dets(T) ** (nu + nv) * ku * kv
    if what in ("face", "faceN"):
        o["loc"] = r.randrange(4)
        S *= 2 * moments(2, n)
        if what == "face":
            o["nM"] = [face_n2(t, o["loc"]) for t in T]
    elif what == "edge":
        o["loc"] = r.randrange(6)
        S *= moments(1, n)
        o["nM"] = [edge_n2(t, o["loc"]) for t in T]
    elif what == "node":
        o["loc"] = r.randrange(4)
    elif what == "tet":
        S *= 6 * moments(3, n)
    else:
        o["den"] = r.choice([2, 3, 4])
        o["pts"] = g.points(points or r.choice([1, 2, 3, 5]), o["den"])
        o["w"] = [r.randint(-3, 3) for _ in range(max(1, len(o["pts"]) + r.choice([0, 0, 0, 0, 2] + ([-1, -2] if what == "pntL" else []))))]
        S *= o["den"] ** n
    o["order"] = max(1, n + (orderplus if orderplus is not None else r.choice([0, 0, 1, 2])))
    if S > (5 * 10 ** 6 if what in ("pntL", "pntX") else 3 * 10 ** 8):
        return None
    o["S"] = factors(S)
    o["ext"] = [nfa(spV), nfa(spU) * f]
    return o


def cost(o):
    """rough number of polynomial terms the specification handles"""
    if "sp" in o:
        return len(o["T"]) * (nfa(o["sp"]) * 10 + 50)
    du, dv = opdim(o["opU"], dim(o["spU"])), opdim(o["opV"], dim(o["spV"]))
    tu, tv = agg(o["spU"], 5) * (2 if o["opU"] == "GRAD" else 1), agg(o["spV"], 5)
    return len(o["T"]) * nfa(o["spU"]) * nfa(o["spV"]) * min(du, dv) * tu * tv * (4 if len(o["D"]["c"]) > 1 else 1)


def spread(cases, n=8):
    """order the cases so that contiguous shards have similar costs"""
    cases = sorted(cases, key=cost, reverse=True)
    b = [[] for _ in range(n)]
    w = [0] * n
    size = (len(cases) + n - 1) // n
    for c in cases:
        i = min((j for j in range(n) if len(b[j]) < size), key=lambda j: w[j])
        b[i].append(c)
        w[i] += cost(c) + 30
    return sum(b, [])


P0, P1, P2, P3, B2, B4, CR1, RT0, ND0 = (leaf(k) for k in ("P0", "P1", "P2", "P3", "B2", "B4", "CR1", "RT0", "ND0"))
LEAVES = [P0, P1, P2, P3, B2, B4, CR1, RT0, ND0]
COMPOSED = [vec(3, P1), vec(2, P2), vec(3, P0), vec(3, CR1), vec(2, RT0), prod(P1, P0), prod(vec(2, P1), P2), prod(RT0, P0), prod(ND0, P1),
            prod(vec(3, P1), P0), prod(P1, vec(2, P0)), union(P1, B4), union(P1, B2), union(vec(3, P1), vec(3, B4)), union(RT0, vec(3, B4)),
            prod(union(P1, B4), P0), vec(3, union(P1, B4)), vec(2, vec(2, P1)), prod(prod(P0, P1), P0), vec(2, prod(P1, P0)),
            union(ND0, prod(B4, B2, B4)), vec(3, B4), vec(3, P2), union(prod(P1, P0), prod(B4, B4)), union(CR1, B4), union(P0, B4, B2),
            prod(union(P1, B4), union(P1, B4), union(P1, B4)), vec(1, P1), prod(P3, P1), prod(RT0, ND0)]
DEPENDENT = [union(vec(3, P1), RT0), union(P0, P1), union(RT0, ND0), union(P1, CR1), union(vec(3, P0), ND0), union(prod(P1, P0), vec(2, P1)),
             union(P1, P2), union(P3, B2), union(P3, P0, B4), union(P2, B2), union(prod(P1, RT0), prod(B4, vec(3, P0)))]
SPACES = LEAVES + COMPOSED


def build_rt(c, eigen):
    if eigen:
        return c.build("femrt", flags=EIG + ("-DTAG_E",), parts=6, opt="-O0", sources=["anifem++/fem/tetdofmap.cpp", "anifem++/fem/fem_space.cpp", "anifem++/fem/quadrature_formulas.cpp"])
    return c.build("femrt", flags=ASAN, parts=6, opt="-O0", sources=["anifem++/fem/tetdofmap.cpp", "anifem++/fem/fem_space.cpp", "anifem++/fem/quadrature_formulas.cpp"])


TETS = ("{<<<<0,0,0>>,<<1,0,0>>,<<0,1,0>>,<<0,0,1>>>>, <<<<1,0,2>>,<<3,1,0>>,<<0,2,1>>,<<1,1,4>>>>, "
        "<<<<1,0,2>>,<<0,2,1>>,<<3,1,0>>,<<1,1,4>>>>}")
MSPACES = ('{[k |-> x] : x \\in {"P0","P1","P2","P3","B2","B4","CR1","RT0","ND0"}} \\cup {[k|->"vec",n|->3,a|->[k|->"P1"]],'
           '[k|->"prod",a|-><<[k|->"P1"],[k|->"RT0"],[k|->"vec",n|->2,a|->[k|->"P1"]]>>],'
           '[k|->"union",a|-><<[k|->"vec",n|->3,a|->[k|->"B4"]],[k|->"RT0"]>>]}')


def model(c, small=False):
    tets = "{<<<<1,0,2>>,<<0,2,1>>,<<3,1,0>>,<<1,1,4>>>>}" if small else TETS
    c.model("FemModel", constants={"Tets": tets, "Spaces": MSPACES, "VSpaces": "{}"}, init="Init", nxt="Next",
            invariants=["Shape", "Degrees", "Dual", "Gauss", "Grad", "Exact", "Unity", "Geometry", "Independent", "Carried", "AtPlace"])

KINDS = ["face", "faceN", "edge", "node", "pntL", "pntX"]
CHEAP = [s for s in SPACES if nfa(s) <= 16]


def pairs(spaces):
    return [(sp, op) for sp in spaces for op in ops(sp)]


def sample(c, make, want, limit):
    """`want` admissible cases whose cost is within the limit"""
    r = []
    for _ in range(want * 50):
        if len(r) >= want:
            break
        o = make()
        if o and cost(o) <= limit:
            r.append(o)
    return spread(r)


ASSUME = ["corners with small integer coordinates, |det| <= 4; point coordinates with denominators up to 5; tensors: polynomials of degree <= 1 with small integer coefficients",
          "results are compared as residues modulo the prime 46337 of the exact rational value times a known denominator (square roots of face areas and edge lengths divided out)",
          "normalization of the basis functions of RT0 and ND0: unit normal flux / unit tangential average per face / edge, as documented"]


def f01(c):
    q = c.quick
    model(c)
    for eigen in (0, 1):
        drv = build_rt(c, eigen)
        g = Gen(c.rng)
        r = c.rng
        if eigen == 0:
            c.conform("FemTrace", drv, [{"op": "shape", "sp": s, "opr": o} for s, o in pairs(SPACES)], label="dimensions and orders")
        todo = pairs(SPACES)
        r.shuffle(todo)
        cs = []
        for k in range(1 if q else 12):
            for i, (sp, op) in enumerate(todo):
                cs.append(case_value(g, sp, op, r.choice([1, 2, 3]), tensor=(i + k + eigen) % 2 == 1))
        cs = spread([o for o in cs if o])
        c.conform("FemTrace", drv, cs, label="values, %s Eigen" % ("with" if eigen else "without"))
    c.assumptions += ASSUME


def integral_case(c, g, what, spaces=SPACES):
    r = c.rng
    sU = r.choice(spaces)
    sV = sU if r.random() < .3 else r.choice(spaces)
    opU = r.choice(ops(sU))
    opV = opU if sU is sV and r.random() < .5 else r.choice(ops(sV))
    return case_integral(g, sU, opU, sV, opV, r.choice([1, 1, 2, 3]), what)


def f02(c):
    q = c.quick
    model(c)
    for eigen in (0, 1):
        drv = build_rt(c, eigen)
        g = Gen(c.rng)
        cs = sample(c, lambda: integral_case(c, g, "tet"), 130 if q else 2500, 15000 if q else 60000)
        c.conform("FemTrace", drv, cs, label="tetrahedron integrals, %s Eigen" % ("with" if eigen else "without"))
    c.assumptions += ASSUME


def f03(c):
    q = c.quick
    model(c, small=True)
    for eigen in (0, 1):
        drv = build_rt(c, eigen)
        g = Gen(c.rng)
        cs = sum((sample(c, lambda: integral_case(c, g, w), 22 if q else 600, 8000 if q else 60000) for w in KINDS), [])
        c.conform("FemTrace", drv, spread(cs), label="faces, edges, nodes and points, %s Eigen" % ("with" if eigen else "without"))
    c.assumptions += ASSUME


def f06(c):
    """announced memory: exactly that much (poisoned, guarded) suffices; one entry less is refused"""
    q = c.quick
    r = c.rng
    model(c, small=True)
    drv = build_rt(c, 0)
    g = Gen(r)
    small = [s for s in SPACES if nfa(s) <= 12]

    def one():
        w = r.choice(["tet", "tet"] + KINDS)
        o = integral_case(c, g, w, small)
        if o:
            o["mem"] = "plain"
            sh = (opdim(o["opV"], dim(o["spV"])) * (3 if w == "faceN" else 1), opdim(o["opU"], dim(o["spU"])))
            if sh != (3, 1) and o["D"]["t"] == "G" and r.random() < .1:     # the helper for vectors refuses other shapes
                o["tr"], o["cut"] = "hvec", "shape"
                return o
            if r.random() < .3:
                o["cut"] = r.choice("dimA")
        return o

    def val():
        sp, op = r.choice(pairs(SPACES))
        o = case_value(g, sp, op, r.choice([1, 2, 3, 5]), tensor=r.random() < .5, q=r.choice([1, 2, 3, 6, 11]))
        if o:
            o["mem"] = "plain"
            if r.random() < .3:
                o["cut"] = r.choice("dimA")
        return o
    c.conform("FemTrace", drv, sample(c, val, 200 if q else 3000, 10 ** 9), label="evaluation in exactly the announced memory")
    c.conform("FemTrace", drv, sample(c, one, 160 if q else 3000, 6000 if q else 40000), label="integration in exactly the announced memory")
    c.assumptions += ["work arrays are separate guarded (AddressSanitizer) blocks of exactly the announced sizes filled with NaN; overruns from one announced part into another are seen by their effect on the values"]


MINI = union(P1, B4)
PAIRS = [  # the operator types of harness/femct.cpp
    (P1, "GRAD", P1, "GRAD"), (P2, "IDEN", P1, "IDEN"), (RT0, "IDEN", P2, "GRAD"), (RT0, "DIV", P0, "IDEN"), (ND0, "CURL", ND0, "IDEN"),
    (vec(3, P1), "GRAD", vec(3, P1), "GRAD"), (vec(3, P2), "DIV", P1, "IDEN"),
    (vec(2, prod(P1, P0)), "IDEN", vec(2, prod(P1, P0)), "IDEN"), (prod(vec(2, P1), P2), "GRAD", P1, "IDEN"), (MINI, "GRAD", MINI, "GRAD"),
    (vec(3, MINI), "IDEN", RT0, "IDEN"), (union(vec(3, P1), vec(3, B4)), "IDEN", B2, "GRAD"), (CR1, "IDEN", B2, "IDEN"), (P3, "DUDX", CR1, "DUDZ"),
    (prod(RT0, P0), "IDEN", prod(ND0, P1), "IDEN"), (vec(3, P2), "DUDZ", ND0, "IDEN"),
    (prod(prod(P1, P0), B4), "DUDY", prod(prod(P1, P0), B4), "IDEN"), (prod(MINI, MINI, P1), "DUDX", B4, "GRAD"),
    (union(RT0, vec(3, B4)), "DIV", P0, "IDEN"), (vec(3, P1), "CURL", ND0, "CURL")]
STACKORDER = {"tet": 6, "face": 9, "faceN": 9, "edge": 20}


def f04(c):
    """operators given by types"""
    q = c.quick
    r = c.rng
    model(c, small=True)
    for eigen in (0, 1):
        drv = c.build("femct", flags=EIG if eigen else ASAN, parts=8, opt="-O0", sources=["anifem++/fem/tetdofmap.cpp", "anifem++/fem/fem_space.cpp", "anifem++/fem/quadrature_formulas.cpp"])
        g = Gen(r)
        if not eigen:
            c.conform("FemTrace", drv, [{"op": "cshape", "pair": i, "side": s, "how": h, "sp": p[2 * s], "opr": p[2 * s + 1]}
                                            for i, p in enumerate(PAIRS) for s in (0, 1) for h in (0, 1, 2)],
                      label="dimensions and orders of operator types")

        def value(i):
            what = r.choice(["applyL", "applyX"])
            o = case_value(g, PAIRS[i][0], PAIRS[i][1], r.choice([1, 2, 3]), tensor=False, q=r.choice([1, 2, 3, 5, 9]), what=what)
            if o:
                o["pair"], o["mem"] = i, r.choice(["stack", "plain", "dyn", "xplain", "xdyn"])
            return o

        def integral(i):
            p = PAIRS[i]
            while True:
                mine = eigen and r.random() < .25
                o = case_integral(g, *p, 1 if mine else r.choice([1, 1, 2, 3]), "tet" if mine else r.choice(["tet"] * 3 + KINDS))
                if not o:
                    return None
                if o["tr"] in ("pt", "tet", "gen", "fus"):
                    break
            o["pair"], o["mem"] = i, r.choice(["stack", "plain", "dyn", "xplain", "xdyn"])
            if o["mem"] == "stack" and o["order"] > STACKORDER.get(o["what"], 99):
                o["mem"] = "plain"
            if eigen and o["what"] == "tet" and len(o["T"]) == 1 and o["tr"] != "fus" and r.random() < .6:
                big = max(nfa(p[0]), nfa(p[2])) > 30
                o["mem"] = "eigen"
                if o["order"] > 6 or big:
                    o["cut"] = "order"     # documented limits of this form
                elif r.random() < .1:
                    o["cut"] = "A"
            return o
        def refuse(i):
            """the stack versions refuse what is beyond their documented limits"""
            kind = r.choice(["A", "q", "f", "order"])
            if kind == "q" or (kind == "f" and r.random() < .5) or (kind == "A" and r.random() < .5):
                o = case_value(g, PAIRS[i][0], PAIRS[i][1], 4 if kind == "f" else r.choice([1, 2, 3]), tensor=False,
                               q=r.choice([25, 30, 96, 97]) if kind == "q" else r.choice([1, 2, 5]), what="applyL" if kind == "f" else None)
                if kind == "q" and o and r.random() < .3:
                    o = case_integral(g, *PAIRS[i], 1, r.choice(["pntL", "pntX"]), points=r.choice([25, 40]))
                    while o and len(o["w"]) < len(o["pts"]):
                        o["w"].append(1)
            elif kind == "order":
                o = case_integral(g, *PAIRS[i], r.choice([1, 2]), r.choice(list(STACKORDER)))
                if o:
                    o["order"] = STACKORDER[o["what"]] + 1
            else:
                o = case_integral(g, *PAIRS[i], 4 if kind == "f" else r.choice([1, 2, 3]), r.choice(["tet"] + (KINDS[:-1] if kind == "f" else KINDS)))
            if not o or (kind == "A" and o["what"] in STACKORDER and o.get("order", 0) > STACKORDER[o["what"]]):
                return None
            if o["tr"] not in ("pt", "tet", "gen", "fus", "none"):
                o["tr"] = "pt"
            o["pair"], o["mem"], o["cut"] = i, "stack", kind
            return o
        n = len(PAIRS)
        it = itertools.cycle(range(n))
        c.conform("FemTrace", drv, sample(c, lambda: value(next(it)), n * (4 if q else 60), 10 ** 9), label="values, operator types, %s Eigen" % ("with" if eigen else "without"))
        c.conform("FemTrace", drv, sample(c, lambda: integral(next(it)), n * (6 if q else 100), 12000 if q else 60000),
                  label="integrals, operator types, %s Eigen" % ("with" if eigen else "without"))
        if not eigen:
            c.conform("FemTrace", drv, sample(c, lambda: refuse(next(it)), n * (4 if q else 20), 10 ** 9), label="stack versions refuse what exceeds them")
    c.assumptions += ASSUME + ["operator types: the %d pairs listed in harness/femct.cpp (fixed at compile time); up to 3 tetrahedra at once; stack versions within their documented orders" % n]


# ---------------------------------------------------------------- interpolation
SIMPLICES = [[i] for i in range(4)] + [list(e) for e in EDGES] + [sorted(f) for f in FACES] + [[0, 1, 2, 3]]
POINTDEN = {"P1": 1, "P2": 2, "B2": 2, "P3": 3, "B4": 4}
MIXED = [union(RT0, vec(3, B4)), union(ND0, prod(B4, B2, B4)), union(ND0, vec(3, B4))]
ITPTYPES = LEAVES[:7] + [RT0, ND0, vec(3, P1), vec(2, P2), vec(2, prod(P1, P0)), prod(vec(2, P1), P2), prod(RT0, P0), MINI,
                         union(vec(3, P1), vec(3, B4)), vec(3, MINI), prod(MINI, MINI, P1), prod(ND0, P1), union(RT0, vec(3, B4)), union(P1, B2),
                         union(P0, B4, B2), union(P0, P1), union(RT0, ND0), union(P1, CR1), union(P2, B2), union(ND0, vec(3, B4))]   # types of harness/itprt.cpp
GENERAL = [union(P1, B4), union(P1, B2), union(vec(3, P1), vec(3, B4)), union(CR1, B4)]   # unions for which denominators of general functions are known


def leaves(sp):
    return [sp["k"]] if sp["k"] in LEAF else sum((leaves(s) for s in subs(sp)), [])


def unions(sp):
    return ([sp] if sp["k"] == "union" else []) + (sum((unions(s) for s in (sp["a"] if isinstance(sp["a"], list) else [sp["a"]])), []) if "a" in sp else [])


def locus(sp):
    """vertex sets that carry the degrees of freedom (only used to choose interesting cases)"""
    k = sp["k"]
    if k in LEAF:
        n, e, f, c = SIMPLICES[:4], SIMPLICES[4:10], SIMPLICES[10:14], [SIMPLICES[14]]
        return {"P0": c, "B4": c, "P1": n, "P2": n + e, "P3": n + [x for x in e for _ in (0, 1)] + f, "B2": e, "ND0": e, "CR1": f, "RT0": f}[k]
    return sum((locus(s) for s in subs(sp)), [])


def itp_den(sp, n):
    r = 1
    for k in leaves(sp):
        r = lcm(r, POINTDEN[k] ** n if k in POINTDEN else moments({"P0": 3, "RT0": 2, "CR1": 2, "ND0": 1}[k], n))
    return r * (4 * 12 ** max(n, 1) if unions(sp) else 1)


def case_itp(g, sp, what, typed=None, several=False):
    r = g.rng
    o = {"op": "itp", "what": what, "T": [g.tet()], "sp": sp, "mem": r.choice(["plain", "dyn"]), "via": r.choice(["ptr", "fun"]), "path": [], "sel": []}
    if typed is not None:
        o["type"] = typed
    T = o["T"][0]
    o["nU"] = [rad(sp, T)]
    d = dim(sp)
    nf = r.choice([2, 3] if several else [1, 1, 2, 3]) if what == "dof" else 1
    general = all(u in GENERAL for u in unions(sp))
    deg, S = agg(sp, 2), 1
    loc = locus(sp)
    if what == "region":
        o["reg"] = r.choice(SIMPLICES)
        o["ori"] = r.random() < .5
        inside = [set(x) <= set(o["reg"]) for x in loc]
        vanish = sp["k"] in ("P1", "P2", "P3") or (sp["k"] == "vec" and sp["a"]["k"] in ("P1", "P2", "P3"))
        if set(leaves(sp)) <= {"P1", "P0"} and not unions(sp) and r.random() < .5:
            general = True
        else:
            general = False
    F = []
    for _ in range(nf):
        if general and r.random() < .6:
            n = r.choice([0, 1, 2, 3])
            deg = max(deg, n)
            ts = []
            for _ in range(d):
                ts.append([])
                for _ in range(r.choice([1, 2, 3])):
                    e = [0, 0, 0]
                    for _ in range(r.randint(0, n)):
                        e[r.randrange(3)] += 1
                    ts[-1].append([r.choice([-3, -2, -1, 1, 2, 3])] + e)
            F.append({"p": ts})
            if what == "region":
                for k in range(4):
                    S = lcm(S, moments(k, n + 1))
            else:
                S = lcm(S, itp_den(sp, n))
        else:
            v = [r.randint(-3, 3) for _ in loc]
            if what == "region" and not (vanish and r.random() < .5):
                v = [x if i else 0 for x, i in zip(v, inside)]
            F.append({"d": v})
    o["F"] = F
    o["order"] = max(1, (2 * agg(sp, 2) if what == "region" else 0), deg + (agg(sp, 2) if what == "region" else 0)) + r.choice([0, 0, 1])
    if "P0" in leaves(sp) and unions(sp):
        o["order"] = max(o["order"], 4)
    o["S"] = factors(S)
    if what == "const":
        o["val"] = r.randint(-9, 9)
    if what == "dof":
        o["dof"] = r.randrange(len(loc))
    if what in ("sel", "const"):
        els = [s for s in SIMPLICES if r.random() < .4] + ([r.choice(loc)] if r.random() < .7 else [])
        o["sel"] = [s for i, s in enumerate(els) if s not in els[:i]]
        r.shuffle(o["sel"])
    if what in ("sel", "const") and typed is None and r.random() < .5:
        s = sp
        while "a" in s and (not o["path"] or r.random() < .4):
            n = s["n"] if s["k"] == "vec" else len(s["a"])
            c = r.randrange(n)
            o["path"].append(c)
            s = s["a"] if s["k"] == "vec" else s["a"][c]
    if S > 10 ** 9:
        return None
    return o


def f05(c):
    """interpolation"""
    q = c.quick
    r = c.rng
    model(c, small=True)
    g = Gen(r)
    for eigen in (0, 1):
        drv = c.build("itprt", flags=EIG if eigen else ASAN, parts=5, opt="-O0",
                      sources=["anifem++/fem/tetdofmap.cpp", "anifem++/fem/fem_space.cpp", "anifem++/fem/quadrature_formulas.cpp"])
        label = "%s Eigen" % ("with" if eigen else "without")
        mk = [{"op": "mkspace", "sp": s} for s in SPACES + DEPENDENT + [prod(P1, union(P1, P2)), vec(2, union(P0, P1)), union(union(P1, B4), B2), union(union(P1, B2), P2)]]
        mk += [{"op": "mkspace", "sp": s, "type": i} for i, s in enumerate(ITPTYPES)]
        c.conform("FemTrace", drv, mk, label="only unisolvent unions are made, " + label)
        mk = [{"op": "place", "T": [g.tet()], "sp": s, "type": i} for i, s in enumerate(ITPTYPES) for _ in range(2 if q else 8)]
        c.conform("FemTrace", drv, mk, label="positions of degrees of freedom, " + label)
        spaces = SPACES + [union(union(P1, B4), B2), prod(MINI, vec(2, union(P1, B2))), vec(2, union(CR1, B4)), union(ND0, vec(3, B4))]
        cs = []
        whats = ["dof", "sel", "sel", "region", "const"]
        for k in range(2 if q else 24):
            for i, s in enumerate(spaces):
                for j in range(2):
                    first = k == 0 and j == 0
                    o = case_itp(g, s, "dof" if first else whats[(i + k) % 5] if eigen and q else r.choice(whats), several=first)
                    if o and nfa(s) <= (40 if q else 99):
                        cs.append(o)
        c.conform("FemTrace", drv, spread_itp(cs), label="interpolation, " + label)
        cs = []
        for k in range(3 if q else 30):
            for i, s in enumerate(ITPTYPES):
                if s in DEPENDENT:
                    continue
                o = case_itp(g, s, "dof" if k == 0 else r.choice(["dof", "sel", "sel", "const"]), typed=i, several=k == 0)
                if o:
                    cs.append(o)
        c.conform("FemTrace", drv, spread_itp(cs), label="interpolation, space types, " + label)
    c.assumptions += ASSUME[:2] + ["functions: polynomials of degree <= 3 with integer coefficients, and discrete functions of the same space; unions whose parts share denominators unknown in advance are tried with discrete functions only",
                                   "quadrature orders at least the degree of the integrands"]


def spread_itp(cs):
    r = sorted(cs, key=lambda o: -nfa(o["sp"]))
    return [o for k in range(8) for o in r[k::8]]
