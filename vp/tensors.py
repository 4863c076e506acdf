"""Physical tensors: check A02 (specs Tensor, TensorModel; trace specification TensorTrace)."""
from .fem import ASAN
from .quad import factors

TYPES = ["float", "double", "long double"]
SIZE = {"arr": lambda n: n, "mtx": lambda n: n * n, "sym": lambda n: n * (n + 1) // 2, "ten": lambda n: n ** 4,
        "symten": lambda n: n * n * (n * n + 1) // 2, "bisym": lambda n: SIZE["sym"](SIZE["sym"](n))}
RANK = {"arr": 1, "mtx": 2, "sym": 2, "ten": 4, "symten": 4, "bisym": 4}
GETS = {"arr": 2, "mtx": 3, "sym": 4, "ten": 3, "symten": 4, "bisym": 4}
MAKES = {"arr": 2, "mtx": 4, "sym": 3, "ten": 1, "symten": 1, "bisym": 1}
TO = {"mtx": ["sym", "arr"], "sym": ["mtx", "arr", "pack"], "arr": ["mtx", "sym"], "ten": ["symten", "bisym", "pack"],
      "symten": ["ten", "bisym", "pack"], "bisym": ["ten", "symten", "voigt", "pack"], "voigt": ["bisym"], "pack": ["sym", "ten", "symten", "bisym"]}


def det(a):
    n = len(a)
    if n == 1:
        return a[0][0]
    return sum((-1) ** j * a[0][j] * det([r[:j] + r[j + 1:] for r in a[1:]]) for j in range(n) if a[0][j])


def rows(kind, n, a):
    if kind == "mtx":
        return [a[i * n:(i + 1) * n] for i in range(n)]
    m, k = [[0] * n for _ in range(n)], 0
    for i in range(n):
        for j in range(i, n):
            m[i][j] = m[j][i] = a[k]
            k += 1
    return m


class Gen:
    def __init__(self, r):
        self.r = r

    def nums(self, k, top, zero=0.0):
        return [0 if self.r.random() < zero else self.r.randint(-top, top) for _ in range(k)]

    def dim(self, kind, lo=1):
        return self.r.randint(lo, 5 if RANK[kind] < 4 else self.r.choice([2, 3, 3, 3, 4]))

    def fit(self, o, top):
        """every sum formed from the data stays exact in float"""
        o["t"] = self.r.choice(TYPES if top < 2 ** 24 else TYPES[1:])
        return o

    def index(self, kind, n, t):
        return {"op": "index", "kind": kind, "N": n, "t": t, "a": self.nums(SIZE[kind](n), 999)}

    def fill(self):
        k = self.r.choice(list(SIZE))
        n = self.dim(k)
        return self.fit({"op": "fill", "kind": k, "N": n, "how": self.r.randrange(MAKES[k]), "g": self.r.randrange(GETS[k]), "a": self.nums(SIZE[k](n), 9999)}, 1)

    def put(self):
        r = self.r
        k = r.choice(list(SIZE))
        n = self.dim(k)
        w = [{"i": [r.randrange(n) for _ in range(RANK[k])], "v": r.randint(-9999, 9999), "g": r.randrange(GETS[k])} for _ in range(r.randint(1, 12))]
        return self.fit({"op": "put", "kind": k, "N": n, "g": r.randrange(GETS[k]), "a": self.nums(SIZE[k](n), 99), "w": w}, 1)

    def lin(self):
        r = self.r
        k = r.choice(list(SIZE))
        n = self.dim(k)
        x = [[64 * v for v in self.nums(SIZE[k](n), 9)] for _ in range(3)]
        y = [list(v) for v in x]
        s = []
        for _ in range(r.randint(2, 7)):
            f = r.choice(["add", "sub", "neg", "ade", "sbe", "mle", "dve", "mur", "mul", "div", "cpy"])
            d, b, c = r.randrange(3), r.randrange(3), r.choice([1, 2, -1, -2, 3] if f in ("mle", "mur", "mul") else [1, 2, -2, 4])
            if f in ("dve", "div") and any(v % c for v in y[d]):
                continue
            z = {"add": lambda p, q: p + q, "ade": lambda p, q: p + q, "sub": lambda p, q: p - q, "sbe": lambda p, q: p - q, "neg": lambda p, q: -p,
                 "mle": lambda p, q: p * c, "mur": lambda p, q: p * c, "mul": lambda p, q: p * c, "dve": lambda p, q: p // c, "div": lambda p, q: p // c, "cpy": lambda p, q: q}[f]
            new = [z(p, q) for p, q in zip(y[d], y[b])]
            if any(abs(v) > 10 ** 6 for v in new):
                continue
            y[d] = new
            s.append({"f": f, "d": d, "b": b, "c": c})
        return self.fit({"op": "lin", "kind": k, "N": n, "x": x, "s": s}, 10 ** 6)

    def norm(self):
        k = self.r.choice(list(SIZE))
        n = self.dim(k)
        m = SIZE[k](n)
        return self.fit({"op": "norm", "kind": k, "N": n, "a": self.nums(m, 200, .2), "b": self.nums(m, 200, .2)}, 200 * 200 * n ** RANK[k])

    def mat(self):
        r = self.r
        k = r.choice(["mtx", "sym", "sym"])
        n = r.choice([1, 2, 3, 3, 4, 4, 5])
        while True:
            a = self.nums(SIZE[k](n), r.choice([1, 2, 5]), r.choice([0, .3, .6]))
            x = r.random()
            m = rows(k, n, a)
            if x < .15 and n > 1:       # zero diagonal
                for i in range(n):
                    a[[q for q in range(SIZE[k](n)) if self.diag(k, n, q) == i][0]] = 0
                m = rows(k, n, a)
            d = det(m)
            if n == 5 and abs(d) > 40000:
                continue
            break
        if k == "mtx":
            b = self.nums(n * n, 4)
        else:           # a polynomial in a, so that the product is symmetric
            u, v, w = r.randint(-2, 2), r.randint(-2, 2), r.choice([0, 1])
            sq = [[sum(m[i][q] * m[q][j] for q in range(n)) for j in range(n)] for i in range(n)]
            b = [w * sq[i][j] + u * m[i][j] + (v if i == j else 0) for i in range(n) for j in range(i, n)]
        t = r.choice(TYPES)
        # Inverse elements times the determinant are minors: compared after rounding, so they have to be small
        fl = t == "float" and (n >= 4 or max(map(abs, a)) > 2)
        if fl:
            t = "double"
        had = 1
        for row in m:
            had *= max(1, sum(v * v for v in row)) ** .5
        o = {"op": "mat", "kind": k, "N": n, "t": t, "a": a, "b": b, "v": self.nums(n, 9), "w": self.nums(n, 9),
             "ea": r.choice([0, 0, 0] + ([r.randint(-8, 8)] if t == "float" else [r.randint(-50, 50), -40, 40, 60, -60])),
             "S": factors(abs(d)) if d else [0], "tol": 50000 if t == "float" else 1000}
        if d < 0:
            o["S"].append(-1)
        if d % 46337 == 0:
            o["S"] = [0]
        if d and abs(d) > 40000:
            o["S"] = [0]
        return o

    @staticmethod
    def diag(k, n, q):
        if k == "mtx":
            return q // n if q // n == q % n else -1
        i = 0
        while q >= n - i:
            q -= n - i
            i += 1
        return i if q == 0 else -1

    def mixed(self):
        n = self.r.randint(1, 5)
        return self.fit({"op": "mixed", "kind": "mtx", "N": n, "a": self.nums(n * n, 99), "b": self.nums(SIZE["sym"](n), 99), "c": self.r.randint(-9, 9)}, 10 ** 6)

    def outer(self):
        r = self.r
        k = r.choice(["mtx", "sym", "ten", "symten", "bisym", "symten", "bisym"])
        of = "arr" if k in ("mtx", "sym") else "sym" if k == "bisym" else r.choice(["mtx", "sym"])
        n = self.dim(k, 2)
        m = SIZE[of](n)
        return self.fit({"op": "outer", "kind": k, "of": of, "N": n, "f": self.nums(m, 99), "s": self.nums(m, 99)}, 10 ** 6)

    def conv(self):
        r = self.r
        f = r.choice(list(TO))
        t = r.choice(TO[f])
        n = r.choice([2, 3, 3, 4])
        base = {"pack": t, "voigt": "bisym"}.get(f, f)
        if f == "arr":
            m = n * n
            a = self.nums(m, 999)
            if t == "sym":
                a = [v for row in rows("sym", n, self.nums(SIZE["sym"](n), 999)) for v in row]
        elif (f, t) == ("mtx", "sym"):
            a = [v for row in rows("sym", n, self.nums(SIZE["sym"](n), 999)) for v in row]
        elif t in ("symten", "bisym") and f in ("ten", "symten"):
            a = self.symmetric(f, t, n)
        else:
            a = self.nums(SIZE[base](n), 999)
        return self.fit({"op": "conv", "kind": f, "to": t, "N": n, "a": a}, 1)

    def symmetric(self, f, t, n):
        val = {}

        def canon(k, i):
            if k == "ten":
                return tuple(i)
            p, q = tuple(i[:2]), tuple(i[2:])
            if k == "bisym":
                p, q = tuple(sorted(p)), tuple(sorted(q))
            return min(p, q) + max(p, q)
        out = []
        for q in range(n ** 4):
            i = (q // n ** 3, q // n ** 2 % n, q // n % n, q % n)
            if canon(f, i) == i:
                c = canon(t, i)
                out.append(val.setdefault(c, self.r.randint(-999, 999)))
        return out

    def ident4(self):
        return {"op": "ident4", "kind": "bisym", "N": 3, "t": self.r.choice(TYPES), "c": self.r.randint(-9, 9) * 2}


def a02(c):
    q = c.quick
    inv = ["Classes", "Invariant", "Weights", "Positive", "Dets", "Adj", "Trans", "Products", "Identity4"]
    c.model("TensorModel", "tensors of dimension 1 and 2", constants={"Top": "2" if q else "3", "MaxDim": "2"}, init="Init", nxt="Next", invariants=inv)
    c.model("TensorModel", "tensors of dimension 3", constants={"Top": "1", "MaxDim": "3"}, init="Init3", nxt="Next", invariants=inv)
    drv = c.build("tensors", flags=ASAN, opt="-O0", sources=[], parts=4)
    g = Gen(c.rng)
    cs = [[g.index(k, n, t)] for k in SIZE for n in range(1, 5 if RANK[k] == 4 else 6) for t in (TYPES if n == 3 or not q else [c.rng.choice(TYPES)])]
    kinds = [g.fill, g.put, g.lin, g.norm, g.mat, g.mat, g.mat, g.mixed, g.outer, g.conv, g.conv]
    cs += [[f() for _ in range(4)] for f in kinds for _ in range(80 if q else 1500)] + [[g.ident4() for _ in range(3)]]
    c.rng.shuffle(cs)
    c.conform("TensorTrace", drv, cs, label="random tensors")
    c.assumptions += ["integer data, exact in the number type used; inverses and determinants of integer matrices times powers of two (2^-60 .. 2^60) up to rounding errors",
                      "conversions to a type with more symmetries are checked for tensors that have them; products of symmetric matrices for commuting ones"]
