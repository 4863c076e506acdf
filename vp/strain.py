"""Hyperelasticity: check A03 (specs Strain, StrainModel; trace specification StrainTrace)."""
from fractions import Fraction as Fr

from .autodiff import Bad, Jet, chain1, chain2, con, inv, lcm, w
from .fem import ASAN
from .quad import factors
from .tensors import TYPES, rows

P = 46337
SL = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def mv(a, v):
    return [sum(a[i][k] * v[k] for k in range(3)) for i in range(3)]


def vv(u, v):
    return sum(x * y for x, y in zip(u, v))


def det(a):
    return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))


def val(nm, c, f, s):
    tr = c[0][0] + c[1][1] + c[2][2]
    if nm == "I0":
        return vv(f, s)
    if nm == "I1":
        return tr
    if nm == "I2":
        q = mm(c, c)
        return (tr * tr - q[0][0] - q[1][1] - q[2][2]) // 2
    if nm == "I3":
        return det(c)
    if nm == "I4":
        return vv(f, mv(c, s))
    return vv(mv(c, f), mv(c, s))


def jet(nm, c, f, s):
    def at(*ds):
        b = [list(r) for r in c]
        for k, t in ds:
            i, j = SL[k]
            b[i][j] += t
            b[j][i] += t
        return val(nm, b, f, s)
    g = [Fr(8 * (at((k, 1)) - at((k, -1))) - (at((k, 2)) - at((k, -2))), 12) for k in range(6)]
    h = [[Fr(at((k, 1), (m, 1)) - at((k, 1), (m, -1)) - at((k, -1), (m, 1)) + at((k, -1), (m, -1)), 4) for m in range(6)] for k in range(6)]
    return Jet(val(nm, c, f, s), g, h)


class Prog:
    REGS = 3

    def __init__(self, r):
        self.r = r
        self.t = r.choice(TYPES)
        self.fl = self.t == "float"
        self.dif = r.choice([2, 2, 2, 1, 0])
        top = 1 if self.fl else r.choice([1, 2, 2, 3])
        while True:
            F = [[r.randint(-top, top) for _ in range(3)] for _ in range(3)]
            self.j = abs(det(F))
            if self.j and self.j <= (2 if self.fl else 12):
                break
        self.C = mm([list(x) for x in zip(*F)], F)
        self.f, self.s = ([r.randint(-2, 2) for _ in range(3)] for _ in range(2))
        J = {n: jet(n, self.C, self.f, self.s) for n in ("I0", "I1", "I2", "I3", "I4", "I5")}
        J["I4f"], J["I5f"] = jet("I4", self.C, self.f, self.f), jet("I5", self.C, self.f, self.f)
        j = Fr(self.j)
        J["J"] = chain1(J["I3"], j, 1 / (2 * j), -1 / (4 * j ** 3))
        self.jets = J
        self.m = [con(6, 0) for _ in range(self.REGS)]
        self.ev = [{"op": "start", "t": self.t, "regs": self.REGS, "dif": self.dif, "tol": 200000 if self.fl else 1000,
                    "C": [self.C[a][b] for a, b in SL], "f": self.f, "s": self.s, "j": self.j}]

    def size(self, j):
        top, den = (512, 64) if self.fl else (10**6, 10**6)
        s = 1
        for y in [j.v] + (j.g if self.dif >= 1 else []) + ([y for r in j.h for y in r] if self.dif >= 2 else []):
            s = lcm(s, y.denominator)
            if abs(y) > top or s > den or abs(y) * s > (4000 if self.fl else 10**9):
                raise Bad
        for y in j.all():
            if y.denominator % P == 0 or y.denominator > 10**9:
                raise Bad
        return factors(s)

    def opd(self):
        r = self.r
        if r.random() < .3:
            i = r.randrange(self.REGS)
            return {"k": "r", "r": i + 1}, self.m[i]
        k = r.choice(list(self.jets))
        return {"k": k, "w": r.randint(0, 1)}, self.jets[k]

    def fn(self):
        nm = self.r.choice(list(self.jets))
        self.ev.append({"op": "fn", "nm": nm, "h": self.r.randint(0, 2), "S": self.size(self.jets[nm])})

    def put(self, e, j):
        e["S"] = self.size(j)
        d = self.r.randrange(self.REGS)
        e["d"] = d + 1
        self.m[d] = j
        self.ev.append(e)

    def un(self):
        r = self.r
        a, x = self.opd()
        fn = r.choice(["val", "neg", "sq", "pow", "adn", "mun", "nov"])
        c = Fr(r.choice([1, -1, 2, 3, -2, 4]), r.choice([1, 2]))
        e = {"op": "un", "fn": fn, "a": a}
        if fn in ("adn", "mun", "nov"):
            e["c"] = w(c)
        if fn == "pow":
            q = e["q"] = r.choice([-2, -1, 0, 1, 2, 3])
            if q < 2:
                inv(x.v)
        if fn == "nov":
            inv(x.v)
        z = con(6, 0)
        y = {"val": lambda: x, "neg": lambda: chain1(x, -x.v, -1, 0), "sq": lambda: chain1(x, x.v**2, 2 * x.v, 2),
             "pow": lambda: chain1(x, x.v**q, q * x.v**(q - 1), q * (q - 1) * x.v**(q - 2) if q not in (0, 1) else 0), "adn": lambda: chain2(x, z, x.v + c, 1, 0, 0, 0, 0),
             "mun": lambda: chain1(x, c * x.v, c, 0), "nov": lambda: chain1(x, c / x.v, -c / x.v**2, 2 * c / x.v**3)}[fn]()
        self.put(e, y)

    def bin(self):
        r = self.r
        (a, x), (b, y) = self.opd(), self.opd()
        if a["k"] in ("I4f", "I5f"):
            a["k"], x = a["k"][:2], self.jets[a["k"][:2]]
        fn = r.choice(["add", "sub", "mul", "div"])
        if fn == "div":
            i = inv(y.v)
        z = {"add": lambda: chain2(x, y, x.v + y.v, 1, 1, 0, 0, 0), "sub": lambda: chain2(x, y, x.v - y.v, 1, -1, 0, 0, 0),
             "mul": lambda: chain2(x, y, x.v * y.v, y.v, x.v, 0, 1, 0),
             "div": lambda: chain2(x, y, x.v * i, i, -x.v * i * i, 0, -i * i, 2 * x.v * i**3)}[fn]()
        self.put({"op": "bin", "fn": fn, "a": a, "b": b, "w": r.randint(0, 1)}, z)

    def kin(self):
        self.ev.append({"op": "kin", "F": [self.r.randint(-20, 20) for _ in range(9)], "K": [self.r.randint(-20, 20) for _ in range(9)]})

    def stress(self):
        n = self.r.choice([4, 20])
        self.ev.append({"op": "stress", "F": [self.r.randint(-n, n) for _ in range(9)], "Y": [self.r.randint(-99, 99) for _ in range(6)], "Z": [self.r.randint(-99, 99) for _ in range(21)]})

    def run(self, n):
        for _ in range(n):
            try:
                self.r.choice([self.fn, self.fn, self.un, self.un, self.bin, self.bin, self.bin, self.kin, self.stress])()
            except Bad:
                pass
        return self.ev


def a03(c):
    q = c.quick
    c.model("StrainModel", "deformations with small entries", constants={"Ent": "1", "Free": "{1, 2, 4, 5, 6, 9}" if q else "1..9"}, init="Init", nxt="Next",
            invariants=["Meaning", "Cayley", "Grads", "Fibres", "Tangent"])
    drv = c.build("strain", flags=ASAN, opt="-O0", sources=[], parts=7)
    cs = [Prog(c.rng).run(12) for _ in range(500 if q else 8000)]
    c.conform("StrainTrace", drv, cs, label="random programs over invariants")
    c.assumptions += ["deformations and fibres with integer entries: values, gradients and Hessians are rational, compared modulo %d after multiplication by a common denominator; float within 0.2, double within 0.001 of it" % P,
                      "derivatives are those by E of functions of symmetric E; nothing is asked of derivatives of higher order than an object was made with"]
