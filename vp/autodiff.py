"""Automatic differentiation: check A01 (specs AutoDiff, ADModel; trace specification ADTrace)."""
from fractions import Fraction as Fr
from math import isqrt, lcm

from .fem import ASAN
from .quad import factors

P = 46337
ST = {"arr1": (1, False, "double"), "arr2": (2, True, "double"), "arr3": (3, False, "float"), "sym3": (6, True, "double"),
      "sym2": (3, False, "double"), "ten2": (4, True, "double"), "ten3": (9, False, "double"), "arr4": (4, False, "long double")}
CIRCLE = [(3, 4, 5), (4, 3, 5), (-3, 4, 5), (-4, -3, 5), (5, 12, 13), (0, 1, 1), (8, -15, 17)]
HYPER = [(3, 5, 4), (4, 5, 3), (0, 1, 1), (-3, 5, 4), (-4, 5, 3), (5, 13, 12)]


class Bad(Exception):
    pass


def rt(a):
    """square root of a rational, or None"""
    if a < 0:
        return None
    p, q = isqrt(a.numerator), isqrt(a.denominator)
    return Fr(p, q) if p * p == a.numerator and q * q == a.denominator else None


def ic(a):
    s = -1 if a < 0 else 1
    n = abs(a)
    k = round(n ** (1 / 3))
    return s * k if k ** 3 == n else None


def crt(a):
    p, q = ic(a.numerator), ic(a.denominator)
    return None if p is None or q is None else Fr(p, q)


class Jet:
    def __init__(self, v, g, h):
        self.v, self.g, self.h = Fr(v), g, h

    def all(self):
        return [self.v] + self.g + [y for r in self.h for y in r]


def con(n, c):
    return Jet(c, [Fr(0)] * n, [[Fr(0)] * n for _ in range(n)])


def chain2(a, b, f, fa, fb, faa, fab, fbb):
    n = len(a.g)
    g = [fa * a.g[i] + fb * b.g[i] for i in range(n)]
    h = [[fa * a.h[i][j] + fb * b.h[i][j] + faa * a.g[i] * a.g[j] + fbb * b.g[i] * b.g[j] + fab * (a.g[i] * b.g[j] + a.g[j] * b.g[i])
          for j in range(n)] for i in range(n)]
    return Jet(f, g, h)


def chain1(a, f, f1, f2):
    return chain2(a, con(len(a.g), 0), f, f1, 0, f2, 0, 0)


def inv(a):
    if a == 0 or a.numerator % P == 0:
        raise Bad
    return 1 / a


def w(a):
    a = Fr(a)
    if max(abs(a.numerator), a.denominator) > 10**9:
        raise Bad
    return [a.numerator, a.denominator]


class Prog:
    REGS = 4

    def __init__(self, r, st):
        self.r, self.st = r, st
        self.n, self.model, self.t = ST[st]
        self.fl = self.t == "float"
        self.over = False
        self.dif = r.choice([2, 2, 2, 2, 1, 0])
        pool = [1, -1, 2, -2, 3, Fr(1, 2), Fr(-1, 2), Fr(3, 2)] + ([] if self.fl else [4, 5, Fr(9, 4), Fr(1, 4), -3, 0])
        self.x = [Fr(r.choice(pool)) for _ in range(self.n)]
        self.m = [con(self.n, 0) for _ in range(self.REGS)]
        self.ev = [{"op": "case", "id": 0}, {"op": "start", "st": st, "regs": self.REGS, "dif": self.dif, "tol": 100000 if self.fl else 1000, "x": [w(c) for c in self.x]}]

    def num(self):
        return Fr(self.r.choice([1, 2, 3, -1, -2, -3, 4, 0, 5]), self.r.choice([1, 1, 1, 2] if self.fl else [1, 1, 2, 4]))

    def vrb(self, i):
        j = con(self.n, self.x[i])
        j.g = [Fr(int(k == i)) for k in range(self.n)]
        return j

    def opd(self, kind=None):
        r = self.r
        k = kind or r.choices("rvpls", [9, 4, 2, 3, 1])[0]
        if k == "v":
            i = r.randrange(self.n)
            return {"k": "v", "i": i + 1}, self.vrb(i)
        if k == "p":
            c = self.num()
            return {"k": "p", "c": w(c)}, con(self.n, c)
        if k == "l":
            i, j, c = r.randrange(self.n), r.randrange(self.n), self.num()
            a, b = self.vrb(i), self.vrb(j)
            return {"k": "l", "i": i + 1, "j": j + 1, "c": w(c)}, chain2(a, b, c * a.v + b.v, c, 1, 0, 0, 0)
        i = r.randrange(self.REGS)
        a = self.m[i]
        if k == "s":
            return {"k": "s", "r": i + 1, "w": w(a.v)}, con(self.n, (a.v > 0) - (a.v < 0))
        return {"k": "r", "r": i + 1}, a

    def put(self, e, j, d=None, other=None):
        top, den = (64, 32) if self.fl else (10**4, 10**5)
        s = 1
        ent = [y for q in (j, other) if q for y in [q.v] + (q.g if self.dif >= 1 else []) + ([y for r in q.h for y in r] if self.dif >= 2 else [])]
        for y in ent:
            s = lcm(s, y.denominator)
            if abs(y) > top or s > den:
                raise Bad
        for y in j.all():
            if y.denominator % P == 0 or (y.denominator > 10**9):
                raise Bad
        d = self.r.randrange(self.REGS) if d is None else d
        e.update(d=d + 1, S=factors(s))
        e.setdefault("T", {})
        T = e["T"]
        T["one"] = [1, 1]
        self.ev.append(e)
        self.m[d] = j
        return d

    # table of values of elementary functions: T for the specification, tab for the driver
    def table(self, e, rows, T):
        e["tab"] = [[f, w(a), w(v)] for f, a, v in rows]
        e["T"] = {k: w(v) for k, v in T.items()}

    def shift(self, target):
        """a register whose value is the target"""
        o, a = self.opd("r")
        c = target - a.v
        return self.put({"op": "binr", "fn": "add", "a": o, "c": w(c)}, chain1(a, target, 1, 0))

    def special(self, targets):
        r = self.r
        t = Fr(r.choice(targets))
        k = r.random()
        if k < .15:
            return {"k": "p", "c": w(t)}, con(self.n, t)
        if k < .45:
            i = [q for q in range(self.n) if self.x[q] in targets]
            if i:
                i = r.choice(i)
                return {"k": "v", "i": i + 1}, self.vrb(i)
        d = self.shift(t)
        return {"k": "r", "r": d + 1}, self.m[d]

    def number(self, c):
        """a register set to a number: a value without derivatives, of any order"""
        return self.put({"op": "num", "c": w(c), "ord": self.r.randint(0, self.dif)}, con(self.n, c))

    def powd(self, a, v, q):
        if q.denominator == 1:
            q = int(q)
            z = [0, 0]
            if q != 0:
                z[0] = q * (a.v ** (q - 1) if q > 0 else inv(a.v) ** (1 - q))
            if q not in (0, 1):
                z[1] = q * (q - 1) * (a.v ** (q - 2) if q > 1 else inv(a.v) ** (2 - q))
            return chain1(a, v, z[0], z[1])
        return chain1(a, v, q * v * inv(a.v), q * (q - 1) * v * inv(a.v * a.v))

    def step(self):
        r = self.r
        kind = r.choices(["un", "bin", "binr", "binl", "asn", "hypot", "cmp", "root", "elem", "powr", "powx", "init", "num"],
                         [8, 14, 4, 4, 3, 3, 1, 3, 8 if self.model else 0, 3, 4 if self.model else 0, .5, 1])[0]
        if kind == "un":
            fn = r.choice(["neg", "val", "shell", "abs", "sign", "sq", "cube", "powi", "powl", "powi"])
            o, a = self.opd() if r.random() < .85 else self.special([0])
            e = {"op": "un", "fn": fn, "a": o}
            sg = (a.v > 0) - (a.v < 0)
            if fn in ("abs", "sign"):
                e["w"] = w(a.v)
            if fn == "neg":
                j = chain1(a, -a.v, -1, 0)
            elif fn in ("val", "shell"):
                j = a
            elif fn == "abs":
                j = chain1(a, abs(a.v), sg or 1, 0)
            elif fn == "sign":
                j = con(self.n, sg)
            else:
                q = {"sq": 2, "cube": 3}.get(fn) or r.randint(-4, 5)
                if fn.startswith("pow"):
                    e["q"] = q
                j = self.powd(a, a.v ** q if q >= 0 else inv(a.v) ** -q, Fr(q))
            self.put(e, j)
            self.over = fn == "abs" and sg == 0
        elif kind in ("bin", "binr", "binl", "asn"):
            fn = r.choice(["add", "sub", "mul", "mul", "div", "div"] + (["min", "max"] if kind == "bin" else []) + (["atan2"] if kind == "bin" and self.model else []))
            e = {"op": kind, "fn": fn}
            d = None
            if kind == "asn":
                d, s = r.randrange(self.REGS), r.randrange(self.REGS)
                e["r0"] = s + 1
                a, b = self.m[d], self.m[s]
            else:
                e["a"], a = self.opd()
                if kind == "bin":
                    if fn in ("min", "max") and r.random() < .3:      # a tie
                        dd = self.shift(a.v)
                        if e["a"]["k"] in "rs" and e["a"]["r"] == dd + 1:
                            raise Bad
                        e["b"], b = {"k": "r", "r": dd + 1}, self.m[dd]
                    else:
                        e["b"], b = self.opd()
                else:
                    c = self.num()
                    e["c"] = w(c)
                    b = con(self.n, c)
                    if kind == "binl":
                        a, b = b, a
            if fn == "add":
                j = chain2(a, b, a.v + b.v, 1, 1, 0, 0, 0)
            elif fn == "sub":
                j = chain2(a, b, a.v - b.v, 1, -1, 0, 0, 0)
            elif fn == "mul":
                j = chain2(a, b, a.v * b.v, b.v, a.v, 0, 1, 0)
            elif fn == "div":
                i = inv(b.v)
                j = chain2(a, b, a.v * i, i, -a.v * i * i, 0, -i * i, 2 * a.v * i**3)
            elif fn in ("min", "max"):
                e["w"] = w(a.v - b.v)
                j = a if (a.v <= b.v) == (fn == "min") or a.v == b.v else b
            else:
                q = inv(a.v * a.v + b.v * b.v)
                f = Fr(r.choice([0, 1, -1, 3]), 2)
                self.table(e, [("atan2", b.v, f)], {"atan2": f})
                xy = 2 * a.v * b.v * q * q
                j = chain2(a, b, f, b.v * q, -a.v * q, -xy, (a.v * a.v - b.v * b.v) * q * q, xy)
            tie = fn in ("min", "max") and a.v == b.v
            self.put(e, j, d, b if tie else None)
            self.over = tie
        elif kind == "num":
            self.number(self.num())
        elif kind == "init":
            s = r.randrange(self.REGS)
            self.put({"op": "init", "r0": s + 1}, self.m[s])
        elif kind == "cmp":
            o, a = self.opd()
            p, b = self.opd() if r.random() < .7 else (o, a)
            self.ev.append({"op": "cmp", "a": o, "b": p, "w": w(a.v - b.v)})
        elif kind == "hypot":
            k = r.choice("vlrrr")
            n = r.randint(1, 4)
            for _ in range(200):
                l = [self.opd(k) for _ in range(n)]
                s2 = sum(a.v ** 2 for _, a in l)
                s = rt(s2)
                if s:
                    break
            else:
                if k != "r" or n < 2:
                    raise Bad
                # Pythagorean numbers by shifting two registers
                u = r.choice([(3, 4), (-4, 3), (0, 2), (-2, 0), (5, -12)])
                k0 = r.randrange(4)
                d0 = self.number(Fr(u[0])) if k0 == 0 else self.shift(Fr(u[0]))
                d1 = self.number(Fr(u[1])) if k0 == 1 else self.shift(Fr(u[1]))
                if d0 == d1:
                    raise Bad
                l = [({"k": "r", "r": q + 1}, self.m[q]) for q in (d0, d1)]
                s = rt(sum(a.v ** 2 for _, a in l))
            q = con(self.n, 0)
            for _, a in l:
                q = chain2(q, chain1(a, a.v ** 2, 2 * a.v, 2), q.v + a.v ** 2, 1, 1, 0, 0, 0)
            i = inv(2 * s)
            self.put({"op": "hypot", "l": [o for o, _ in l], "w": w(s), "il": r.random() < .5}, chain1(q, s, i, -i * inv(2 * q.v)))
        elif kind == "root":
            fn = r.choice(["sqrt", "cbrt"])
            o, a = self.special([Fr(1), Fr(4), Fr(1, 4), Fr(9, 4)] if fn == "sqrt" else [Fr(1), Fr(-1), Fr(8), Fr(1, 8), Fr(-8)])
            s = rt(a.v) if fn == "sqrt" else crt(a.v)
            i = inv(2 * s) if fn == "sqrt" else inv(3 * s * s)
            j = chain1(a, s, i, -i * inv(2 * a.v) if fn == "sqrt" else -2 * i * inv(3 * a.v))
            self.put({"op": "un", "fn": fn, "a": o, "w": w(s)}, j)
        elif kind == "powr":
            q = r.choice([Fr(2), Fr(3), Fr(1), Fr(-1), Fr(-2), Fr(0), Fr(4), Fr(1, 2), Fr(3, 2), Fr(-1, 2), Fr(5, 2)])
            if q.denominator == 1:
                o, a = self.opd() if r.random() < .7 else self.special([0])
                v = a.v ** int(q) if q >= 0 else inv(a.v) ** int(-q)
            else:
                o, a = self.special([Fr(1), Fr(4), Fr(1, 4), Fr(9, 4)])
                v = rt(a.v) ** q.numerator
            form = r.choice(["un", "binr", "bin"])
            e = {"op": form, "fn": "powr" if form == "un" else "pow", "a": o, "q": w(q), "v": w(v)}
            if form == "binr":
                e["c"] = w(q)
            elif form == "bin":
                e["b"] = {"k": "p", "c": w(q)}
            self.put(e, self.powd(a, v, q))
        elif kind == "powx":
            q = Fr(r.choice([1, 2, 3, -1, -2, 0]), 1) if r.random() < .6 else Fr(r.choice([1, 3, -1]), 2)
            form = r.choice(["bin", "bin", "binl"])
            if form == "bin":
                o, a = self.special([Fr(1), Fr(4), Fr(1, 4), Fr(9, 4)])
            else:
                a = con(self.n, r.choice([1, 4, Fr(1, 4)]))
            if q.denominator != 1 and rt(a.v) is None:
                raise Bad
            d = self.shift(q)
            if form == "bin" and o["k"] == "r" and o["r"] == d + 1:
                a = self.m[d]
                raise Bad
            kb = {"k": "r", "r": d + 1}
            b = self.m[d]
            i = [k for k in range(self.n) if self.x[k] == q]
            if i and r.random() < .5:
                kb, b = {"k": "v", "i": i[0] + 1}, self.vrb(i[0])
            v = (a.v if q.denominator == 1 else rt(a.v)) ** q.numerator
            ln = Fr(r.choice([1, -1, 2, 0, 3]), r.choice([1, 2]))
            if ln == 0 and v != 1:
                ln = Fr(1)
            e = {"op": form, "fn": "pow", "q": w(q), "v": w(v)}
            self.table(e, [("log", a.v, ln), ("exp", ln * q, v)], {"log": ln})
            if form == "bin":
                e.update(a=o, b=kb)
            else:
                e.update(a=kb, c=w(a.v))
            i = inv(a.v)
            self.put(e, chain2(a, b, v, v * q * i, v * ln, v * q * (q - 1) * i * i, v * i * (1 + q * ln), v * ln * ln))
        else:
            self.elem()

    def elem(self):
        r = self.r
        fam = r.choice(["sin", "exp", "log", "log1p", "sinh", "atan", "asin"])
        if fam == "asin":
            o, a = self.special([Fr(0), Fr(3, 5), Fr(-4, 5), Fr(4, 5), Fr(-3, 5)])
        else:
            o, a = self.opd()
        v, rows, T = a.v, [], {}
        if fam == "sin":
            s, c, h = r.choice([t for t in CIRCLE if t[1]])
            T = {"sin": Fr(s, h), "cos": Fr(c, h), "tan": Fr(s, c)}
            if v == 0:
                T = {"sin": Fr(0), "cos": Fr(1), "tan": Fr(0)}
            rows = [("sin", v, T["sin"]), ("sin", -v, -T["sin"]), ("cos", v, T["cos"]), ("cos", -v, T["cos"]), ("tan", v, T["tan"]), ("tan", -v, -T["tan"])]
            fn = r.choice(["sin", "cos", "tan"])
            d = {"sin": (T["cos"], -T["sin"]), "cos": (-T["sin"], -T["cos"]), "tan": (1 + T["tan"]**2, 2 * T["tan"] * (1 + T["tan"]**2))}[fn]
        elif fam == "exp":
            x = Fr(r.choice([1, 2, 3, 5]), r.choice([1, 2, 4])) if v else Fr(1)
            T = {"exp": x, "expm1": x - 1}
            rows = [("exp", v, x), ("exp", -v, 1 / x), ("expm1", v, x - 1), ("expm1", -v, 1 / x - 1)]
            fn = r.choice(["exp", "expm1"])
            d = (x, x)
        elif fam == "log":
            T = {"log": Fr(r.choice([1, -2, 3]), r.choice([1, 2]))}
            rows = [("log", v, T["log"]), ("log1p", v - 1, T["log"])]
            fn, d = "log", (inv(v), -inv(v)**2)
        elif fam == "log1p":
            T = {"log1p": Fr(r.choice([1, -2, 3]), r.choice([1, 2]))}
            rows = [("log1p", v, T["log1p"]), ("log", v + 1, T["log1p"])]
            fn, d = "log1p", (inv(1 + v), -inv(1 + v)**2)
        elif fam == "sinh":
            s, c, h = r.choice(HYPER) if v else (0, 1, 1)
            T = {"sinh": Fr(s, h), "cosh": Fr(c, h), "tanh": Fr(s, c)}
            rows = [("sinh", v, T["sinh"]), ("sinh", -v, -T["sinh"]), ("cosh", v, T["cosh"]), ("cosh", -v, T["cosh"]), ("tanh", v, T["tanh"]), ("tanh", -v, -T["tanh"]),
                    ("exp", v, T["sinh"] + T["cosh"]), ("exp", -v, T["cosh"] - T["sinh"])]
            fn = r.choice(["sinh", "cosh", "tanh"])
            t = T["tanh"]
            d = {"sinh": (T["cosh"], T["sinh"]), "cosh": (T["sinh"], T["cosh"]), "tanh": (1 - t * t, -2 * t * (1 - t * t))}[fn]
        elif fam == "atan":
            T = {"atan": Fr(r.choice([1, -2, 3]), 2) if v else Fr(0)}
            rows = [("atan", v, T["atan"]), ("atan", -v, -T["atan"])]
            fn, d = "atan", (inv(1 + v * v), -2 * v * inv(1 + v * v)**2)
        else:
            T = {"asin": Fr(r.choice([1, -1, 3]), 4) if v else Fr(0), "acos": Fr(r.choice([1, 3]), 4), "root": rt(1 - v * v)}
            rows = [("asin", v, T["asin"]), ("acos", v, T["acos"]), ("asin", -v, -T["asin"])]
            fn = r.choice(["asin", "acos"])
            i = inv(T["root"])
            d = (i, v * i**3) if fn == "asin" else (-i, -v * i**3)
        e = {"op": "un", "fn": fn, "a": o}
        self.table(e, rows, T)
        j = chain1(a, T[fn], *d)
        for k in ("sin", "cos", "tan", "exp", "expm1", "log", "log1p", "sinh", "cosh", "tanh", "atan", "asin", "acos", "root"):
            T.setdefault(k, Fr(0))
        self.put(e, j)

    def run(self, steps):
        tries = 0       # on a tie either operand may be taken: the program ends there
        while not self.over and len(self.ev) < steps + 2 and tries < 40 * steps:
            tries += 1
            k = len(self.ev)
            keep = list(self.m)
            try:
                self.step()
            except Bad:
                self.ev = self.ev[:k]
                self.m = keep
        return self.ev[1:]


STD = {"exp": (-4, 4), "expm1": (-4, 4), "log": (.05, 9), "log1p": (-.8, 8), "sqrt": (.05, 9), "cbrt": (.05, 9), "sin": (-4, 4), "cos": (-4, 4), "tan": (-1.2, 1.2),
       "atan": (-6, 6), "asin": (-.9, .9), "acos": (-.9, .9), "sinh": (-4, 4), "cosh": (-4, 4), "tanh": (-3, 3), "pow": (.2, 4), "powx": (-3, 3), "powxx": (.2, 3),
       "atan2": (-5, 5), "hypot": (-5, 5), "hypot3": (-5, 5), "hypot1": (-5, 5), "powi": (.3, 4), "rat": (-3, 3)}


def std(r, fn, t):
    lo, hi = STD[fn]
    o = {"op": "std", "fn": fn, "t": t, "x": [int(r.uniform(lo, hi) * 997) or 1, 997], "most": 60 if fn in ("hypot", "hypot3", "hypot1", "powi") else 400}
    if fn in ("pow", "powx", "atan2", "hypot", "hypot3", "powi", "rat"):
        o["q"] = [r.randint(1, 3 * 991) * (1 if fn in ("powx", "powi") else r.choice([1, -1])), 991]
    return o


def a01(c):
    q = c.quick
    inv = ["Ring", "Assoc", "Quotient", "Powers", "Roots", "LogExp", "Circle", "Angles", "Hyper", "Hypo"]
    c.model("ADModel", "one variable", constants={"NV": "1", "Es": "{0, 1, 2}" if q else "{0, 1, 2, -1}", "Vs": "{0, 1, 2, -3}" if q else "{0, 1, 2, -3, 7}", "Three": "FALSE" if q else "TRUE"}, init="Init", nxt="Next", invariants=inv)
    c.model("ADModel", "two variables", constants={"NV": "2", "Es": "{0, 1}", "Vs": "{2}" if q else "{0, 2}", "Three": "FALSE"}, init="Init", nxt="Next", invariants=inv)
    r = c.rng
    for stdv in ("c++14", "c++17"):     # the code takes different branches
        drv = c.build("autodiff", flags=ASAN, opt="-O0", parts=8, std=stdv)
        cs = [Prog(r, st).run(r.randint(4, 9)) for st in sorted(ST) for _ in range((200 if stdv == "c++14" else 60) if q else 900)]
        cs += [[std(r, fn, t) for _ in range(6 if q else 60)] for fn in sorted(STD) for t in ("float", "double", "long double")]
        r.shuffle(cs)
        c.conform("ADTrace", drv, cs, label="random programs, %s" % stdv)
    c.assumptions += ["rational data; results up to rounding errors, compared after multiplication with the common denominator",
                      "elementary functions take prescribed rational values in three storages; the standard ones are compared with the C library (long double) in units of rounding",
                      "one order of differentiation for all variables of a program; derivatives beyond it are not specified"]
