"""Geometry and dense linear algebra: check G01 (spec Geometry, trace specification GeoTrace)."""
from .fem import ASAN, EIG, cross, det, dot, sub
from .quad import factors

SRC = ["anifem++/fem/tetdofmap.cpp", "anifem++/fem/fem_space.cpp", "anifem++/fem/quadrature_formulas.cpp"]


def idet(A):
    """determinant of a list of rows (Bareiss)"""
    A, n, prev, sg = [list(r) for r in A], len(A), 1, 1
    for k in range(n - 1):
        if A[k][k] == 0:
            for i in range(k + 1, n):
                if A[i][k]:
                    A[i], A[k] = A[k], A[i]
                    sg = -sg
                    break
            else:
                return 0
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                A[i][j] = (A[i][j] * A[k][k] - A[i][k] * A[k][j]) // prev
        prev = A[k][k]
    return sg * A[n - 1][n - 1] if n else 1


def col(A):
    return [A[i][j] for j in range(len(A[0])) for i in range(len(A))]


class Geo:
    def __init__(self, r, eigen):
        self.r, self.eigen = r, eigen

    def t(self):
        return self.r.choice(["double", "double", "float"])

    def exp(self, t):
        return self.r.choice([0, 0, 0, self.r.randint(-12, 12) if t == "float" else self.r.randint(-120, 120)])

    def rows(self, n, m, top, sparse=.25):
        r = self.r
        return [[0 if r.random() < sparse else r.randint(-top, top) for _ in range(m)] for _ in range(n)]

    def regular(self, n, top, cap):
        while True:
            A = self.rows(n, n, top, self.r.choice([0, .2, .5]))
            d = idet(A)
            if d and abs(d) <= cap:
                return A, abs(d)

    def pnt(self, top=6):
        return [self.r.randint(-top, top) for _ in range(3)]

    def tet(self):
        while True:
            T = [self.pnt() for _ in range(4)]
            if det(T):
                return T

    def case(self, kind):
        r, t = self.r, self.t()
        fl = t == "float"
        o = {"op": kind, "t": t, "ea": self.exp(t)}
        if kind == "inv3":
            A, d = self.regular(3, r.choice([1, 2, 5]), 30 if fl else 10000)
            o.update(A=col(A), S=factors(d))
        elif kind in ("cross", "cross3", "area", "fnormal"):
            k = {"cross": 2, "cross3": 3, "area": 3, "fnormal": 4}[kind]
            while True:
                p = [self.pnt() for _ in range(k)]
                if kind != "fnormal" or det(p):
                    break
            o.update(p=p)
        elif kind == "tetra":
            o.update(T=self.tet(), c=r.random() < .5)
        elif kind == "bary":
            while True:
                T = self.tet()
                if not fl or abs(det(T)) < 60:
                    break
            o.update(T=T, X=[self.pnt(8) if r.random() < .8 else r.choice(T) for _ in range(r.randint(1, 5))], psi=r.random() < .5, S=factors(abs(det(T))))
        elif kind in ("chol", "cholinv"):
            n = r.randint(1, 3 if fl else 5)
            while True:
                A = self.rows(n, n, r.choice([1, 2, 3]), .3)
                G = [[sum(A[k][i] * A[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
                if kind == "chol" and not self.eigen and r.random() < .3:   # not positive definite, clearly
                    i = r.randrange(n)
                    G[i][i] -= G[i][i] + r.randint(0, 9)
                lead = [idet([row[:k] for row in G[:k]]) for k in range(1, n + 1)]
                pd = all(x > 0 for x in lead)
                if any(x == 0 for x in lead[1:]) and not (lead[0] <= 0):
                    continue     # undecidable with rounding
                if kind == "cholinv" and not pd or self.eigen and not pd:
                    continue
                if max(map(abs, lead)) > (60 if fl else 60000):
                    continue
                break
            o.update(N=n, A=col(G), lead=lead, S=factors(abs(lead[-1]) or 1), am=r.random() < .4)
            if kind == "chol":
                m = r.randint(1, 4)
                o.update(M=m, B=col(self.rows(n, m, 5)), eb=self.exp(t), xb=r.random() < .4)
        elif kind in ("lusolve", "lupsolve", "luinv"):
            n = r.randint(1, 3 if fl else 6)
            A, d = self.regular(n, r.choice([1, 2, 4]), 40 if fl else 60000)
            o.update(N=n, A=col(A), S=factors(d))
            if kind == "luinv":
                o.update(xa=r.random() < .5)
            else:
                m = r.randint(1, 4)
                o.update(M=m, B=col(self.rows(n, m, 5)), eb=self.exp(t), xb=r.random() < .4)
        elif kind == "lu":
            n = r.randint(1, 6)
            A = self.rows(n, n, r.choice([1, 2, 9]), r.choice([0, .3, .6]))
            if r.random() < .3 and n > 1:       # singular
                A[r.randrange(n)] = [2 * x for x in A[r.randrange(n)]]
            p, q = list(range(n)), list(range(n))
            if r.random() < .4:
                r.shuffle(p)
                r.shuffle(q)
            w = 20 if fl else r.choice([10, 80])
            o.update(N=n, A=col(A), p=p, q=q, re=[r.choice([0, 0, r.randint(-w, w)]) for _ in range(n)])
        elif kind in ("qr", "svd"):
            m = r.randint(1, 4)
            n = r.randint(m, 5) if kind == "qr" else r.randint(1, 4)
            A = self.rows(n, m, r.choice([1, 3, 6]), r.choice([0, .3, .6]))
            x = r.random()
            if x < .2 and m > 1:        # dependent columns
                i, j = r.randrange(m), r.randrange(m)
                for row in A:
                    row[i] = -row[j]
            elif x < .25:
                A = [[0] * m for _ in range(n)]
            elif x < .35 and n > 1:
                A[r.randrange(n)] = list(A[r.randrange(n)])
            elif x < .45:       # orthogonal columns, equal singular values
                A = [[(3 if i == j else 0) for j in range(m)] for i in range(n)]
                r.shuffle(A)
            if kind == "svd" and fl and any(abs(y) > 3 for row in A for y in row):
                o["t"] = "double"
            if kind == "svd" and o["t"] == "float" and min(n, m) > 2:
                o["t"] = "double"
            o.update(N=n, M=m, A=col(A))
            if kind == "svd":
                o.update(u=r.random() < .7, v=r.random() < .7)
        return o


KINDS = ["inv3", "cross", "cross3", "area", "fnormal", "tetra", "bary", "chol", "chol", "cholinv", "lusolve", "lusolve", "lupsolve", "luinv", "lu", "lu", "qr", "qr", "svd", "svd", "svd"]


def g01(c):
    q = c.quick
    inv = ["Entries", "DetOk", "Multipliers", "Factors", "Cramer", "Binet", "Closed"]
    c.model("GeoModel", "elimination, 2 x 2", constants={"Dm": "2", "Top": "2" if q else "6", "Lo": "-2" if q else "-6"}, init="Init", nxt="Next", invariants=inv)
    c.model("GeoModel", "elimination, 3 x 3", constants={"Dm": "3", "Top": "1", "Lo": "0" if q else "-1"}, init="Init", nxt="Next", invariants=inv)
    for eigen in (0, 1):
        drv = c.build("geometry", flags=EIG if eigen else ASAN, opt="-O0", sources=SRC)
        g = Geo(c.rng, eigen)
        cs = [[g.case(k) for _ in range(4)] for k in KINDS for _ in range(30 if q else 400)]
        c.rng.shuffle(cs)
        c.conform("GeoTrace", drv, cs, label="random data, %s Eigen" % ("with" if eigen else "without"))
    c.assumptions += ["integer data times powers of two; rational results are compared after multiplication with the determinant, up to rounding errors",
                      "orthogonality of computed factors up to 32 n units of rounding, A - U S V^T up to 8 square roots of the unit of rounding relative to the largest singular value"]
