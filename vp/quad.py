"""Quadrature formulas: check F07 (spec Quad, trace specification QuadTrace)."""
from fractions import Fraction
from math import factorial

from .fem import ASAN, EIG


def exps(k, d):
    if k == 0:
        return [(d,)]
    return [(a,) + r for a in range(d, -1, -1) for r in exps(k - 1, d - a)]


def mean(k, e):
    n = factorial(k)
    for a in e:
        n *= factorial(a)
    return Fraction(n, factorial(sum(e) + k))


def factors(n):
    out, p = [], 2
    acc = 1
    while n > 1:
        while n % p == 0:
            n //= p
            if acc * p > 40000:
                out.append(acc)
                acc = 1
            acc *= p
        p += 1
    return out + [acc]


def f07(c):
    q = c.quick
    c.model("QuadModel", "mean values of monomials", init="Init", nxt="Next", constants={"MaxDeg": "6" if q else "14"},
            invariants=["Unity", "Invariant", "Stokes", "Midpoint", "Vertices", "Simpson", "TriMid", "Keast", "NotMore"])
    for eigen in (0, 1):
        drv = c.build("quad", flags=EIG if eigen else ASAN, opt="-O0", sources=["anifem++/fem/quadrature_formulas.cpp"])
        cs = []
        for k, top in ((1, 21), (2, 20), (3, 20)):
            for n in range(-3, 40):
                cs.append([{"op": "rule", "k": k, "n": n}])
            for n in range(top + 1):
                for via in ("pw", "data"):
                    es = [e for d in range(n + 1) for e in exps(k, d)]
                    if eigen and via == "pw" and q:
                        es = [e for e in es if sum(e) == n]
                    for i in range(0, len(es), 300):
                        part = es[i:i + 300]
                        cs.append([{"op": "moments", "k": k, "n": n, "via": via, "e": [list(e) for e in part],
                                    "S": [factors(mean(k, e).denominator) for e in part]}])
        c.rng.shuffle(cs)
        c.conform("QuadTrace", drv, cs, label="all orders and monomials, %s Eigen" % ("with" if eigen else "without"))
    c.assumptions += ["moments are computed in extended precision from the coordinates and weights of the library; a moment counts as exact when its relative error is at most 1e-11"]
