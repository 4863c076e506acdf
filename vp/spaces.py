"""Composition of spaces and their bases as expressions: check F08 (spec SpaceAlg), expressions: check X01 (spec ExprAlg)."""
from .fem import ASAN, COMPOSED, DEPENDENT, EIG, Gen, LEAVES, SPACES, agg, det, dim, factors, nfa, rad, subs, union, vec

SRC = ["anifem++/fem/tetdofmap.cpp", "anifem++/fem/fem_space.cpp", "anifem++/fem/quadrature_formulas.cpp"]


def flat(k, s):
    return s["a"] if s["k"] == k else [s]


def simple(k, ss):
    return {"k": k, "a": sum((flat(k, s) for s in ss), [])}


class Prog:
    """a sequence of construction steps; terms of registers that are certain to exist are tracked"""

    def __init__(self, r, g):
        self.r, self.g, self.ops, self.t, self.next = r, g, [], {}, 0

    def reg(self, term):
        d = self.next % 10
        self.next += 1
        self.t[d] = term
        return d

    def do(self, op, term, **kw):
        d = self.reg(term)
        self.ops.append(dict(op=op, d=d, **kw))
        return d

    def leaf(self, s):
        return self.do("leaf", s, s=s)

    def build(self, s):
        """the given term, by steps"""
        k = s["k"]
        if k == "vec":
            a = self.build(s["a"])
            op = self.r.choice(["pow", "pow", "vecinit"])
            return self.do(op, s, a=a, n=s["n"], **({"via": self.r.choice(["pow", "op"])} if op == "pow" else {}))
        if k in ("prod", "union"):
            ps = [self.build(x) for x in s["a"]]
            if any(p not in self.t or self.t[p] != x for p, x in zip(ps, s["a"])):
                return self.leaf(s)
            ok = not any(x["k"] == k for x in s["a"])
            how = self.r.choice(["raw", "init"] + (["simple", "op"] if ok else []))
            if how == "op" and len(ps) >= 2:
                o = "plus" if k == "union" else "times"
                cur = self.do(o, {"k": k, "a": s["a"][:2]}, a=ps[0], b=ps[1])
                for i in range(2, len(ps)):
                    cur = self.do(o, {"k": k, "a": s["a"][:i + 1]}, a=cur, b=ps[i])
                return cur
            op = {"raw": k + "raw", "init": k + "init"}.get(how, k)
            return self.do(op, s, a=ps)
        return self.leaf(s)

    def basis(self, d):
        sp = self.t[d]
        T = self.g.tet(4)
        den = self.r.choice([2, 3, 4, 5])
        S = abs(det(T)) ** agg(sp, 4) * agg(sp, 3) * den ** agg(sp, 2)
        self.ops.append({"op": "basis", "a": d, "T": T, "pt": self.g.points(1, den)[0], "den": den, "nU": rad(sp, T), "S": factors(S),
                         "via": self.r.choice(["vec", "ptr"])})

    def eq(self, a, b):
        self.ops.append({"op": "eq", "a": a, "b": b})

    def path(self, s):
        p = []
        while self.r.random() < .75:
            n = len(subs(s))
            i = self.r.choice(list(range(n)) + [-1, n]) if self.r.random() < .3 or n == 0 else self.r.randrange(n)
            p.append(i)
            if not 0 <= i < n:
                if self.r.random() < .5:
                    p.append(0)
                return p, None
            s = subs(s)[i]
        return p, s


def space_case(r, g, big):
    p = Prog(r, g)
    pool = [s for s in SPACES if nfa(s) <= (40 if big else 16)]
    regs = [p.build(r.choice(pool))]
    for _ in range(r.randint(2, 7)):
        if p.next > 8:
            break
        w = r.random()
        a = r.choice(regs)
        ta = p.t[a]
        if w < .2 and p.next < 6:
            regs.append(p.build(r.choice(pool)))
        elif w < .45:
            b = r.choice(regs)
            if nfa(ta) + nfa(p.t[b]) <= 60:
                op = r.choice(["times", "prod", "prodraw"])
                t = {"k": "prod", "a": [ta, p.t[b]]} if op == "prodraw" else simple("prod", [ta, p.t[b]])
                regs.append(p.do(op, t, **({"a": a, "b": b} if op == "times" else {"a": [a, b]})))
        elif w < .55:
            n = r.randint(1, 3)
            if nfa(ta) * n <= 60:
                regs.append(p.do("pow", vec(n, ta), a=a, n=n, via=r.choice(["pow", "op"])))
        elif w < .65:
            regs.append(p.do("copy", ta, a=a, via=r.choice(["copy", "share"])))
            p.eq(a, regs[-1])
        elif w < .9:
            path, s = p.path(ta)
            if s is not None:
                d = p.do("sub", s, a=a, path=path, via=r.choice(["one", "list"]))
                regs.append(d)
            else:
                p.ops.append({"op": "sub", "d": 9, "a": a, "path": path, "via": r.choice(["one", "list"])})
        if r.random() < .4:
            p.eq(r.choice(regs), r.choice(regs))
        if r.random() < .3:
            p.basis(r.choice(regs))
    p.basis(regs[-1])
    # at the end: constructions that may be refused
    if r.random() < .3:
        p.ops.append({"op": "pow", "d": 9, "a": r.choice(regs), "n": -r.randint(1, 3), "via": r.choice(["pow", "op"])})
    if r.random() < .6:
        a, b = r.choice(regs), r.choice(regs)
        if nfa(p.t[a]) + nfa(p.t[b]) <= 26:
            op = r.choice(["plus", "union", "unionraw", "unioninit"])
            p.ops.append(dict({"op": op, "d": 9}, **({"a": a, "b": b} if op == "plus" else {"a": [a, b]})))
    return p.ops


def spacealg(c, eigen):
    return c.build("spacealg", flags=(EIG if eigen else ASAN) + ("-O0",), opt="-O0", sources=SRC)


def f08(c):
    q = c.quick
    c.model("SpaceModel", init="Init", nxt="Next", constants={"Leaves": '{"P0","P1","B4"}' if q else '{"P0","P1","B4","RT0","CR1"}', "Depth": "2",
                                                              "TetM": "<<<<1,0,2>>,<<0,2,1>>,<<3,1,0>>,<<1,1,4>>>>"},
            invariants=["Assoc", "SameFunctions", "Counts", "Components", "SubSub", "SubSize"])
    for eigen in (0, 1):
        drv = spacealg(c, eigen)
        r, g = c.rng, Gen(c.rng)
        cs = []
        for s in SPACES:
            p = Prog(r, g)
            d = p.build(s)
            p.basis(d)
            p.eq(d, p.leaf(s))
            cs.append(p.ops)
        for s in LEAVES:      # equality and names of all pairs of leaves
            p = Prog(r, g)
            a = p.leaf(s)
            for t in LEAVES:
                p.ops.append({"op": "leaf", "d": 9, "s": t})
                p.eq(a, 9)
            cs.append(p.ops)
        for s in DEPENDENT:
            p = Prog(r, g)
            ps = [p.build(x) for x in s["a"]]
            p.ops.append({"op": r.choice(["union", "unionraw", "unioninit"]), "d": 9, "a": ps})
            cs.append(p.ops)
        cs += [space_case(r, g, not q or i % 8 == 0) for i in range(200 if q else 6000)]
        r.shuffle(cs)
        c.conform("SpaceTrace", drv, cs, label="constructions, %s Eigen" % ("with" if eigen else "without"))
    c.assumptions += ["the basis of a power is given as the functions of its operand, repeated (the nonzero components)",
                      "expressions are evaluated by a numeric backend of BaseExpr with scalar broadcasting; square roots of face areas and edge lengths are divided out"]


UN = ["neg", "not", "sq", "norm", "abs", "exp", "expm1", "log", "log1p", "sqrt", "cbrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh",
      "erf", "erfc", "tgamma", "lgamma", "floor", "ceil", "sign"]
ELT = ["+", "-", "*", "/", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "pow", "atan2", "fmod", "hypot", "min", "max"]


class ExprProg:
    """random well-shaped programs over six registers; sh[i] = shape of register i or None when empty"""

    def __init__(self, r):
        self.r, self.sh, self.ops = r, [None] * 6, []

    def full(self, p=lambda s: True):
        return [i for i in range(6) if self.sh[i] and p(self.sh[i])]

    def put(self, o, shape):
        d = self.r.randrange(6)
        self.ops.append(dict(o, d=d))
        self.sh[d] = shape

    def small(self, n, k):
        return [[self.r.choice([0, 0, 1, 2, 3, self.r.randrange(1009)]) for _ in range(k)] for _ in range(n)]

    def lit(self, n, k):
        self.put({"op": "lit", "m": self.small(n, k), "via": self.r.choice(["ctor", "move", "shared", "assign"])}, (n, k))

    def like(self, s):
        """a register of that shape or a scalar"""
        return self.r.choice(self.full(lambda q: q == s or q == (1, 1)))

    def num(self):
        return {"num": self.r.choice([0, 1, 2, 3, 500, 1008])}

    def step(self):
        r = self.r
        f = self.full()
        if len(f) < 3 or r.random() < .12:
            return self.lit(*r.choice([(1, 1), (1, 3), (3, 1), (3, 3), (2, 3), (3, 2), (2, 2), (4, 3), (4, 1)]))
        a = r.choice(f)
        s = self.sh[a]
        w = r.choice(["un", "un", "bin", "bin", "bin", "bin", "dot", "cross", "mtimes", "tri", "inplace", "gather", "cat", "mt", "scalsum", "sub1", "sub2", "elt", "row",
                      "col", "T", "det3", "zeroes", "num", "arr", "mat", "reshape", "copy", "move", "empty", "bad"])
        if w == "un":
            u = r.choice(UN)
            self.put({"op": "un", "f": u, "a": a}, (1, 1) if u == "norm" else s)
        elif w == "bin":
            o = {"op": "bin", "f": r.choice(ELT), "a": {"reg": a}, "b": r.choice([{"reg": self.like(s)}, {"reg": self.like(s)}, self.num()])}
            if r.random() < .4:
                o["a"], o["b"] = o["b"], o["a"]
            self.put(o, s)
        elif w in ("dot", "cross", "mtimes"):
            bs = self.full(lambda q: (q == s and (w == "dot" or s in ((1, 3), (3, 1)))) if w != "mtimes" else q[0] == s[1])
            if w == "mtimes" and s[0] == s[1] and r.random() < .3:
                o = [{"reg": a}, self.num()]
                r.shuffle(o)
                return self.put({"op": "bin", "f": w, "a": o[0], "b": o[1]}, s)
            if not bs:
                return
            b = r.choice(bs)
            self.put({"op": "bin", "f": w, "a": {"reg": a}, "b": {"reg": b}}, (1, 1) if w == "dot" else s if w == "cross" else (s[0], self.sh[b][1]))
        elif w == "tri":
            args = [{"reg": a}] + [r.choice([{"reg": r.choice(self.full(lambda q: q == s))}, self.num()]) for _ in range(2)]
            r.shuffle(args)
            self.put({"op": "tri", "f": r.choice(["fma", "ifelse"]), "a": args[0], "b": args[1], "c": args[2]}, s)
        elif w == "inplace":
            b = self.like(s)
            self.ops.append({"op": "inplace", "f": r.choice("+-*/"), "d": a, "b": b})
        elif w == "gather":
            self.put({"op": "gather", "f": r.choice(["min", "max"]), "a": [a] + [self.like(s) for _ in range(r.randint(0, 3))]}, s)
        elif w == "cat":
            k = r.randint(1, 3)
            v = r.random() < .5
            xs = [a] + [r.choice(self.full(lambda q: q[1 if v else 0] == s[1 if v else 0])) for _ in range(k - 1)]
            t = sum(self.sh[x][0 if v else 1] for x in xs)
            if t <= 8:
                self.put({"op": "gather", "f": "vertcat" if v else "horzcat", "a": xs, "via": r.choice(["list", "range"])}, (t, s[1]) if v else (s[0], t))
        elif w == "mt":
            xs = [a]
            while r.random() < .6:
                n = self.full(lambda q: q[0] == self.sh[xs[-1]][1])
                if not n:
                    break
                xs.append(r.choice(n))
            self.put({"op": "gather", "f": "mtimes", "a": xs}, (s[0], self.sh[xs[-1]][1]))
        elif w == "scalsum":
            xs = [a] + [r.choice(self.full(lambda q: q == s)) for _ in range(r.randint(0, 3))]
            self.put({"op": "scalsum", "a": xs, "k": [r.randint(-3, 3) for _ in xs]}, s)
        elif w == "sub1":
            i, j = [r.randrange(s[0]) for _ in range(r.randint(1, 3))], [r.randrange(s[1]) for _ in range(r.randint(1, 2))]
            self.put({"op": "sub1", "a": a, "i": i, "j": j, "via": r.choice(["list", "array"])}, (len(i), len(j)))
        elif w == "sub2":
            i, j, di, dj = r.randrange(s[0]), r.randrange(s[1]), r.choice([1, 2, -1, s[0]]), r.choice([1, -1, 2, s[1]])

            def cnt(x, d, n):
                return len(range(x, n if d > 0 else -1, d))
            self.put({"op": "sub2", "a": a, "i": i, "di": di, "j": j, "dj": dj}, (cnt(i, di, s[0]), cnt(j, dj, s[1])))
        elif w == "elt":
            i, j = r.randint(0, s[0]), r.randint(0, s[1])
            if i < s[0] and j < s[1]:
                self.put({"op": "elt", "a": a, "i": i, "j": j}, (1, 1))
            else:
                self.ops.append({"op": "elt", "d": 0, "a": a, "i": i, "j": j})
        elif w in ("row", "col"):
            i, j = r.randrange(s[0]), r.randrange(s[1])
            self.put({"op": w, "a": a, "i": i, "j": j}, (1, s[1]) if w == "row" else (s[0], 1))
        elif w == "T":
            self.put({"op": "T", "a": a}, (s[1], s[0]))
        elif w == "det3":
            if s == (3, 3):
                self.put({"op": "det3", "a": a}, (1, 1))
            else:
                self.ops.append({"op": "det3", "d": 0, "a": a})
        elif w == "zeroes":
            n, k = r.randint(1, 3), r.randint(1, 3)
            self.put({"op": "zeroes", "a": a, "n": n, "k": k}, (n, k))
        elif w == "num":
            self.ops.append({"op": "num", "a": a, "x": r.randint(-3, 9)})
        elif w == "arr":
            self.ops.append({"op": "arr", "a": a, "x": [r.randint(-5, 9) for _ in range(s[0] * s[1])]})
        elif w == "mat":
            n, k = r.randint(1, 3), r.randint(1, 3)
            b = r.randrange(6)
            self.ops.append({"op": "mat", "a": b, "m": self.small(n, k)})
            self.sh[b] = (n, k)
        elif w == "reshape":
            n = s[0] * s[1]
            k = r.choice([x for x in range(1, n + 1) if n % x == 0])
            self.ops.append({"op": "reshape", "a": a, "n": k, "k": n // k})
            self.sh[a] = (k, n // k)
        elif w == "copy":
            e = [i for i in range(6) if not self.sh[i]]
            if e and r.random() < .3:
                a, s = r.choice(e), None
            self.put({"op": "copy", "a": a, "via": r.choice(["ctor", "assign", "shared"])}, s)
        elif w == "move":
            d = r.randrange(6)
            if d != a:
                self.ops.append({"op": "move", "d": d, "a": a})
                self.sh[d], self.sh[a] = s, None
        elif w == "empty":
            if len(f) > 4:
                self.put({"op": "empty"}, None)
        elif w == "bad":
            e = [i for i in range(6) if not self.sh[i]]
            o = r.choice([{"op": "gather", "f": r.choice(["min", "max", "mtimes", "vertcat", "horzcat"]), "a": []}, {"op": "scalsum", "a": [], "k": []}] + ([
                {"op": "gather", "f": r.choice(["min", "max", "vertcat"]), "a": [a, e[0]]}, {"op": "scalsum", "a": [a, e[0]], "k": [1, 2]}, {"op": "num", "a": e[0], "x": 1},
                {"op": "arr", "a": e[0], "x": [1]}, {"op": "reshape", "a": e[0], "n": 1, "k": 1}, {"op": "zeroes", "a": e[0], "n": 2, "k": 2}] if e else []))
            self.ops.append(dict(o, d=r.randrange(6)))


def x01(c):
    q = c.quick
    sh = "{<<1,3>>}" if q else "{<<1,3>>, <<1,1>>, <<2,1>>}"
    inv = ["Ring", "Order", "Shape", "Product", "Vector", "Det"]
    c.model("ExprModel", init="Init", nxt="Next", constants={"Vals": "{0,1,5}" if q else "{0,1,2,1008}", "Shapes": sh}, invariants=inv)
    if not q:
        c.model("ExprModel", init="Init", nxt="Next", constants={"Vals": "{0,1,1008}", "Shapes": "{<<2,2>>}"}, invariants=inv)
    drv = c.build("exprw", flags=ASAN, opt="-O0", sources=[])
    r = c.rng
    cs = []
    for f in UN:          # every function on its own
        p = ExprProg(r)
        p.lit(3, 1)
        p.ops.append({"op": "un", "f": f, "a": p.full()[0], "d": 5})
        cs.append(p.ops)
    for f in ELT:
        p = ExprProg(r)
        p.lit(2, 2)
        a = p.full()[0]
        p.ops.append({"op": "lit", "m": p.small(2, 2), "via": "ctor", "d": (a + 1) % 6})
        A, B = {"reg": a}, {"reg": (a + 1) % 6}
        for x, y in ((A, B), (B, A), (A, p.num()), (p.num(), B), (A, A)):
            p.ops.append({"op": "bin", "f": f, "a": x, "b": y, "d": (a + 2) % 6})
        cs.append(p.ops)
    for f in ("fma", "ifelse"):
        p = ExprProg(r)
        for k in range(3):
            p.ops.append({"op": "lit", "m": p.small(2, 2), "via": "ctor", "d": k})
        for mask in range(7):
            args = [p.num() if mask >> k & 1 else {"reg": k} for k in range(3)]
            p.ops.append({"op": "tri", "f": f, "a": args[0], "b": args[1], "c": args[2], "d": 4})
        cs.append(p.ops)
    for _ in range(400 if q else 12000):
        p = ExprProg(r)
        for _ in range(r.randint(5, 30)):
            p.step()
        cs.append(p.ops)
    r.shuffle(cs)
    c.conform("ExprTrace", drv, cs, label="programs over expressions")
    c.assumptions += ["the backend behind BaseExpr is the harness' own (matrices over the integers modulo 1009, analytic functions uninterpreted); operands are well shaped except for the errors that the interface itself reports"]
