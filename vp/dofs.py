"""Maps of degrees of freedom on a tetrahedron."""
NE = [4, 6, 6, 4, 4, 1]
VOL = [[1], [1, 2], [1, 2], [1, 3, 6], [1, 3, 6], [1, 4, 6, 12, 24]]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
BASES = ('{[k |-> "U", n |-> <<1,0,0,0,0,0>>], [k |-> "U", n |-> <<0,1,0,0,2,1>>], '
         '[k |-> "S", s |-> << <<1>>, <<0,0>>, <<0,1>>, <<0,0,0>>, <<1,0,0>>, <<1,0,0,0,0>> >>]}')
FULL = [[0, 1, 2, 3], [0, 1, 2, 3, 4, 5], [0, 1, 2, 3], [0]]


def ndofs(t):
    if t["k"] == "U":
        return list(t["n"])
    if t["k"] == "S":
        return [sum(v * n for v, n in zip(VOL[x], t["s"][x])) for x in range(6)]
    if t["k"] == "V":
        return [t["d"] * n for n in ndofs(t["b"])]
    r = [0] * 6
    for p in t["p"]:
        r = [a + b for a, b in zip(r, ndofs(p))]
    return r


def total(t):
    return sum(e * n for e, n in zip(NE, ndofs(t)))


def leaf(r):
    x = r.random()
    if x < .5:
        kind = r.random()
        n = [0] * 6
        if kind < .1:
            pass
        elif kind < .6:
            for i in r.sample(range(6), r.randint(1, 3)):
                n[i] = r.choice([1, 1, 2, 3])
        else:
            n = [r.choice([0, 1, 1, 2]) for _ in range(6)]
        return {"k": "U", "n": n}
    s = [[0] * len(v) for v in VOL]
    for _ in range(r.randint(1, 4)):
        i = r.randrange(6)
        g = r.randrange(len(VOL[i]))
        if i == 5 and g == 4 and r.random() < .6:
            g = r.randint(0, 3)
        s[i][g] += r.choice([1, 1, 2])
    t = {"k": "S", "s": s}
    if r.random() < .5:
        t["add"] = True
    return t


def term(r, depth, cap=140):
    while True:
        t = _term(r, depth)
        if total(t) <= cap:
            return t


def _term(r, depth):
    if depth == 0 or r.random() < .2:
        return leaf(r)
    if r.random() < .5:
        return {"k": "V", "d": r.choice([1, 2, 2, 3, 3, 4]), "b": _term(r, depth - 1)}
    n = r.choice([1, 2, 2, 3, 4])
    p = [_term(r, depth - 1) for _ in range(n)]
    if n > 1 and r.random() < .3:
        p[1] = p[0]
    return {"k": "C", "p": p}


def shaped(r, sh, cap=140):
    def go(s):
        if s == "L":
            return leaf(r)
        if s[0] == "V":
            return {"k": "V", "d": r.choice([1, 2, 3]), "b": go(s[1])}
        t = {"k": "C", "p": [go(x) for x in s[1]]}
        return t
    while True:
        t = go(sh)
        if total(t) <= cap:
            if t["k"] == "C" and r.random() < .4:
                t["set"] = True
            return t


V = lambda b: ("V", b)
C = lambda *p: ("C", p)
SHAPES = [V("L"), V(V("L")), C("L", "L"), C("L", V("L")), C("L", "L", "L"), C(C("L", "L"), V("L")), V(C("L", "L")), C(V("L"), "L", V("L")), V(C("L", V("L"))), C(V(C("L", "L")), "L")]


def sparsity(r):
    x = r.random()
    if x < .08:
        return FULL
    if x < .16:
        return [[], [], [], []]
    if x < .35:
        d = r.randrange(4)
        s = [[], [], [], []]
        s[d] = [r.choice(FULL[d])]
        return s
    p = r.choice([.2, .4, .7])
    return [[e for e in f if r.random() < p] for f in FULL]


def build(t, name="m", tpl=0):
    return {"op": "build", "r0": name, "term": t, "tpl": tpl}


def assemble(r, t, name="m"):
    """operations that make the map of t out of smaller ones"""
    ops, parts = [], []

    def part(s):
        for n, old in parts:
            if old == s:
                return n
        n = "%s%d" % (name, len(parts))
        parts.append((n, s))
        ops.extend(assemble(r, s, n) if s["k"] in "VC" and r.random() < .6 else [build(s, n)])
        return n
    if t["k"] == "C" and not t.get("set"):
        ops.append({"op": r.choice(["push", "push", "merge"]), "r0": name, "a": [part(s) for s in t["p"]], "k": 1})
    elif t["k"] == "V" and t["d"] > 1:
        ops.append({"op": "pow", "r0": name, "a": [part(t["b"])], "k": t["d"]})
    else:
        return [build(t, name)]
    return ops


def paths(r, t):
    """paths into a term; sometimes leading nowhere"""
    p = []
    while True:
        if t["k"] not in "VC" or (p and r.random() < .4):
            break
        n = t["d"] if t["k"] == "V" else len(t["p"])
        i = r.randrange(n)
        p.append(i)
        t = t["b"] if t["k"] == "V" else t["p"][i]
    if r.random() < .12:
        p.append(r.choice([0, 5, -1]))
    return p


def valid_ops(r, t, k, name="m"):
    n, nd = total(t), ndofs(t)
    out = []
    for _ in range(k):
        x = r.randrange(6)
        if r.random() < .7 and any(nd):
            x = r.choice([i for i in range(6) if nd[i]])
        e = r.choice([0, NE[x] - 1, NE[x], r.randrange(NE[x])])
        l = r.choice([0, max(0, nd[x] - 1), nd[x], r.randint(0, 3)])
        st = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 255])
        ls = r.choice([0, 0, 1, 2, 3, 5, 23, 24, 255])
        if r.random() < .5:   # near the volume of a group of that type
            st = r.randrange(len(VOL[x]))
            ls = r.choice([0, VOL[x][st] - 1, VOL[x][st]])
        i = r.choice([0, max(0, n - 1), n, n + 1, r.randint(0, max(0, n - 1)), 100000])
        out.append({"op": "valid", "r0": name, "i": i, "g": [x, e, l, st, ls]})
    return out


def iter_op(r, t, name="m"):
    n = total(t)
    return {"op": "iter", "r0": name, "a": r.randrange(n) if n else 0, "b": r.randrange(n) if n else 0}


def model(c):
    c.model("DofMap", constants={"Bases": BASES, "MaxOps": 2 if c.quick else 3, "MaxDofs": 60 if c.quick else 90}, spec="Spec",
            invariants=["Bijection", "OnPart", "SimplifyKeeps", "Nested"], **({} if c.quick else {"timeout": 3000}))


def driver(c):
    return c.build("dofmap", sources=["anifem++/fem/tetdofmap.cpp"], flags=SAN)


def anyterm(r, i, cap=140):
    return term(r, 0 if i % 4 == 0 else r.choice([1, 2, 2, 3]), cap)


def tplterm(r, i, cap=140):
    return shaped(r, SHAPES[i % len(SHAPES)], cap)


def go(c, cases, label):
    c.conform("DofMapTrace", driver(c), cases, label=label, tlc_timeout=850)
    c.assumptions += ["maps with up to %d degrees of freedom on the tetrahedron, nesting depth up to 3" % 140]


def mixed(c, n, ops, cap=140):
    """n run-time maps and n/2 compile-time maps, each with ops(term)"""
    r = c.rng
    cases = []
    for i in range(n):
        t = anyterm(r, i, cap)
        cases.append((assemble(r, t) if i % 3 == 2 else [build(t)]) + ops(t))
        if i % 2:
            t = tplterm(r, i // 2, cap)
            cases.append([build(t, tpl=1)] + ops(t))
    return cases


def d01(c):
    model(c)
    r = c.rng
    go(c, mixed(c, 450 if c.quick else 4000, lambda t: [{"op": "geom", "r0": "m"}, iter_op(r, t)]), "dof numbering")


def d02(c):
    model(c)
    r = c.rng
    go(c, mixed(c, 450 if c.quick else 4000, lambda t: [{"op": "count", "r0": "m"}] + valid_ops(r, t, 14)), "dof counts and index validity")


def d03(c):
    model(c)
    r = c.rng
    go(c, mixed(c, 450 if c.quick else 4000, lambda t: [{"op": "sparse", "r0": "m", "sp": sparsity(r)} for _ in range(8)]), "dofs on a part of the tetrahedron")


def nested_ops(r, t, dyn):
    out = []
    for _ in range(5):
        p = paths(r, t)
        if not p:
            break
        out.append({"op": "sub", "r0": "m", "path": p, "wrap": r.randint(0, 1)})
    for _ in range(5):
        p = paths(r, t)
        if not p:
            break
        out.append({"op": "nest", "r0": "m", "path": p, "cut": r.randint(1, len(p)) if r.random() < .5 else len(p), "own": r.randint(0, 1), "sp": sparsity(r)})
    for _ in range(3):
        p, p2 = paths(r, t), paths(r, t)
        if not p:
            break
        s = t
        for i in p:
            s = None if s is None or s["k"] not in "VC" or not 0 <= i < (s["d"] if s["k"] == "V" else len(s["p"])) else s["b"] if s["k"] == "V" else s["p"][i]
        more = (s and paths(r, s)) or [0]
        out.append({"op": "nestq", "r0": "m", "path": p, "path2": r.choice([p, p2 or p]), "more": more, "own": r.randint(0, 1)})
    if dyn and t["k"] in "VC":
        out.append({"op": "comp", "r0": "m"})
    return out


def d04(c):
    model(c)
    r = c.rng
    cases = []
    for i in range(220 if c.quick else 4000):
        t = term(r, r.choice([1, 2, 2, 3]))
        cases.append((assemble(r, t) if i % 3 == 2 else [build(t)]) + nested_ops(r, t, True))
        if i % 2:
            t = tplterm(r, i // 2)
            cases.append([build(t, tpl=1)] + nested_ops(r, t, False))
    go(c, cases, "subspaces of a map")


def algebra_case(r, cap=140):
    """a pool of maps grown by the operations, with comparisons"""
    ops, reg = [], {}

    def put(t, mk):
        if total(t) > cap:
            return None
        name = "r%d" % len(reg)
        reg[name] = t
        ops.append(mk(name))
        return name
    seeds = [leaf(r) for _ in range(2)] + [term(r, 1, 40)]
    for s in seeds:
        put(s, lambda n, s=s: build(s, n))
    if r.random() < .7:   # an equal map, built separately
        s = seeds[r.randrange(3)]
        put(s, lambda n, s=s: build(s, n))
    if r.random() < .4:   # same counts, other symmetry
        put({"k": "S", "s": [[0], [0, 0], [0, 1], [0, 0, 0], [0, 0, 0], [0] * 5]}, lambda n: build(reg[n], n))
        put({"k": "S", "s": [[0], [0, 0], [2, 0], [0, 0, 0], [0, 0, 0], [0] * 5]}, lambda n: build(reg[n], n))
    for _ in range(r.randint(3, 8)):
        names = list(reg)
        op = r.choice(["pow", "powS", "mul", "mul", "mul", "merge", "push", "mergeS", "compress", "copy"])
        k = 1
        if op in ("pow", "powS", "copy"):
            a = [r.choice(names)]
            k = r.choice([1, 2, 3])
        elif op == "mul":
            a = [r.choice(names), r.choice(names)]
            if r.random() < .3:
                a[1] = a[0]
        else:
            a = [r.choice(names) for _ in range(r.choice([1, 2, 3, 4]))]
            for j in range(1, len(a)):
                if r.random() < .4:
                    a[j] = a[j - 1]
            if op == "push" and r.random() < .1:
                a = []
        est = {"pow": k, "powS": k}.get(op, 1)
        sz = est * sum(total(reg[x]) for x in a)
        if sz > cap:
            continue
        name = "r%d" % len(reg)
        # only the size matters to the generator
        nd = [0] * 6
        for x in a:
            nd = [p + est * q for p, q in zip(nd, ndofs(reg[x]))]
        reg[name] = {"k": "U", "n": nd}
        ops.append({"op": op, "r0": name, "a": a, "k": k})
    names = list(reg)
    for _ in range(12):
        a, b = r.choice(names), r.choice(names)
        ops.append({"op": "eq", "a": a, "b": b})
    return ops


def d05(c):
    model(c)
    go(c, [algebra_case(c.rng) for _ in range(220 if c.quick else 5000)], "algebra of maps")


def d06(c):
    model(c)
    r = c.rng
    cases = []
    for i in range(160 if c.quick else 3000):
        t = tplterm(r, i, 100)
        o = tplterm(r, r.randrange(20), 100)
        cases.append([build(t, tpl=1), {"op": "copy", "r0": "k", "a": ["m"], "k": 1}, build(o, "d", tpl=1)] + [{"op": "geom", "r0": "m"}, iter_op(r, t), {"op": "count", "r0": "m"}]
                     + valid_ops(r, t, 6) + [{"op": "sparse", "r0": "m", "sp": sparsity(r)} for _ in range(4)] + nested_ops(r, t, False)
                     + [{"op": "eq", "a": "m", "b": "k"}, {"op": "eq", "a": "d", "b": "m"}])
    go(c, cases, "compile-time maps")


# ---------------------------------------------------------------- selections and symmetries
def d07(c):
    q, r = c.quick, c.rng
    c.model("Sparsity", spec="Spec", invariants=["WalkAll", "ClosureShape", "StaysClosed"])
    drv = c.build("tetsym", sources=["anifem++/fem/tetdofmap.cpp"], flags=SAN)
    cases = []

    def op(f, d=0, i=0, cl=False):
        return {"op": "sp", "f": f, "d": d, "i": i, "c": cl, "via": r.randint(0, 1)}
    n = [4, 6, 4, 1]
    for _ in range(500 if q else 4000):
        ops = []
        for _ in range(24):
            f = r.choice(["set"] * 6 + ["unset"] * 5 + ["setd", "unsetd", "join", "cut", "and", "or", "xor", "not", "swap", "bits"])
            d = r.randrange(4)
            i = r.randrange(n[d])
            if f == "bits":
                i = r.randrange(1 << 15)
            ops.append(op(f, d, i, r.random() < .5))
        cases.append(ops)
    # every single operation on small selections
    for d in range(4):
        for i in range(n[d]):
            for cl in (False, True):
                cases.append([op("set", d, i, cl), op("not"), op("unset", d, i, cl), op("clear")])
    if not q:
        allb = list(range(1 << 15))
        for k in range(0, len(allb), 256):
            cases.append([op("bits", 0, i) for i in allb[k:k + 256]])
    c.conform("SparsityTrace", drv, cases, label="selections", tlc_timeout=850)


def d08(c):
    q, r = c.quick, c.rng
    import itertools
    c.model("Symmetry", spec="Spec", invariants=["Action", "Returns", "Signs"])
    drv = c.build("tetsym", sources=["anifem++/fem/tetdofmap.cpp"], flags=SAN)
    perms = [list(p) for p in itertools.permutations(range(4))]
    cases = [[{"op": "reorder", "s": s}, {"op": "remap", "s": s}] for s in perms]
    cases.append([{"op": "tables"}])
    for x in range(6):
        cases.append([{"op": "stab", "x": x, "e": e} for e in range(NE[x])])
    for i in range(160 if q else 3000):
        t = anyterm(r, i, 60)
        strip(t)
        cases.append([{"op": "perm", "term": t, "s": s} for s in ([perms[0]] + r.sample(perms, 2))])
    c.conform("SymmetryTrace", drv, cases, label="vertex permutations", tlc_timeout=850)


def strip(t):
    t.pop("add", None)
    t.pop("set", None)
    if t["k"] == "V":
        strip(t["b"])
    if t["k"] == "C":
        for p in t["p"]:
            strip(p)


# ---------------------------------------------------------------- Dirichlet conditions
def rotations(r):
    """orthogonal matrices q / den"""
    x = r.random()
    if x < .3:
        d = r.choice([1, 2, 3, 3, 4])
        p = list(range(d))
        r.shuffle(p)
        return [[r.choice([1, -1]) if j == p[i] else 0 for j in range(d)] for i in range(d)], 1
    base = r.choice([([[3, 4], [-4, 3]], 5), ([[2, -1, 2], [2, 2, -1], [-1, 2, 2]], 3), ([[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]], 2)])
    q, den = [list(x) for x in base[0]], base[1]
    r.shuffle(q)
    for row in q:
        if r.random() < .4:
            row[:] = [-v for v in row]
    if r.random() < .5:
        p = list(range(len(q)))
        r.shuffle(p)
        q = [[row[j] for j in p] for row in q]
    return q, den


def matrix(r, n, m, big=9):
    return [[r.choice([0, 0, r.randint(-big, big)]) if r.random() < .4 else r.randint(-big, big) for _ in range(m)] for _ in range(n)]


def vector(r, n, big=9):
    return [r.randint(-big, big) for _ in range(n)]


def plain_term(r, cap):
    while True:
        t = term(r, r.choice([0, 1, 1, 2]), cap)
        s = str(t)
        if "'S'" not in s and total(t) > 0:
            return t


def same_counts(r, t):
    """another map with the same number of dofs on every element"""
    x = r.random()
    nd = ndofs(t)
    if x < .3:
        return {"k": "U", "n": nd}
    if x < .7:
        a = [r.randint(0, n) for n in nd]
        return {"k": "C", "p": [{"k": "U", "n": a}, {"k": "U", "n": [n - m for n, m in zip(nd, a)]}]}
    if t["k"] == "C":
        p = list(t["p"])
        r.shuffle(p)
        return {"k": "C", "p": p}
    return {"k": "V", "d": 1, "b": t}


def d09(c):
    q, r = c.quick, c.rng
    rots = '{[q |-> <<<<1, 0>>, <<0, 1>>>>, d |-> 1], [q |-> <<<<3, 4>>, <<-4, 3>>>>, d |-> 5], [q |-> <<<<0, -1>>, <<1, 0>>>>, d |-> 1]}'
    c.model("Dirichlet", constants={"Ent": "{0, 2}" if q else "{-1, 0, 2}", "Rhs": "{0, 3}" if q else "{1}", "Rots": rots}, spec="Spec", invariants=["Equivalent", "Decoupled", "ScalarCase"], timeout=3000)
    drv = c.build("dirich", sources=["anifem++/fem/tetdofmap.cpp"], flags=SAN)
    cases = []
    for i in range(1500 if q else 20000):
        n = r.randint(1, 6)
        cases.append({"op": "one", "f": r.choice(["dir", "dir", "matrix", "none", "noneA", "res"]), "A": matrix(r, n, n), "F": vector(r, n), "k": r.randrange(n), "bc": r.choice([0, 1, 5, -3])})
    for i in range(500 if q else 8000):
        t = plain_term(r, 26)
        two = r.random() < .7
        u = t if not two or r.random() < .15 else same_counts(r, t)
        strip(t)
        strip(u)
        n = total(t)
        sp = sparsity(r)
        cases.append({"op": "map", "f": r.choice(["dir", "dir", "dir", "matrix", "none", "noneA", "res", "resA"]), "two": two, "trial": t, "test": u, "sp": sp, "A": matrix(r, n, n), "F": vector(r, n),
                      "const": r.random() < .3, "g": vector(r, n)})
    for i in range(1500 if q else 20000):
        m, den = rotations(r)
        d = len(m)
        n = d + r.randint(0, 5)
        dofs = r.sample(range(n), d)
        ndc = r.choice([1, 1, 2, 2, d, max(1, d - 1)])
        ndc = min(ndc, d)
        orth = r.sample(range(d), r.choice([ndc, d])) if r.random() < .6 else []
        cases.append({"op": "vec", "f": r.choice(["full", "full", "full", "matrix", "res", "col", "row"]), "A": matrix(r, n, n), "F": vector(r, n), "dofs": dofs, "q": m, "den": den,
                      "ndc": ndc, "orth": orth, "bc": vector(r, ndc), "via": r.randint(0, 1)})
    c.conform("DirichletTrace", drv, cases, label="elemental systems", tlc_timeout=850)
    c.assumptions += ["systems of up to 26 unknowns with integer entries; directions from signed permutations and the rational rotations with denominators 2, 3, 5"]
