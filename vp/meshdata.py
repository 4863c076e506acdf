"""Mesh functions stored on the elements of a mesh: connectivity, gathering on a cell, renumbering of nodes."""
import itertools
from . import core, dofs

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
XYZ = [[0, 0, 0], [3, 0, 1], [1, 4, 0], [0, 1, 5], [3, 4, -6]]      # 3 and 4 lie on the two sides of the face 0 1 2


def elements(cells):
    s = set()
    for c in cells:
        for n in range(1, 5):
            s |= {tuple(sorted(x)) for x in itertools.combinations(c, n)}
    return sorted(s, key=lambda v: (len(v), v))


def numbers(r):
    return r.sample(range(-3, 12) if r.random() < .5 else range(5), 5)


def cells(r):
    cs = [r.sample([0, 1, 2, 3], 4), r.sample([0, 1, 2, 4], 4)]
    if r.random() < .5:
        cs.reverse()
    return cs if r.random() < .7 else cs[:1]


def tag(r, cs, t, missing, block=1, shift=(0, 0, 0, 0), packed=False):
    n = dofs.ndofs(t)
    st = [n[0], n[1] + n[2], n[3] + n[4], n[5]]
    out, val = [], r.randint(1, 900)
    for v in elements(cs):
        d = len(v) - 1
        ln = shift[d] + block * st[d] + r.choice([0, 0, 0, 2])
        no = ln == 0 or (missing and r.random() < .3)
        if missing == 2 and r.random() < .3 and not no:
            ln = r.randint(0, ln)
        if packed and st[d] > 1 and r.random() < .4:
            ln = shift[d] + block
        a = []
        for _ in range(ln):
            val += r.randint(1, 9)
            a.append(val if r.random() < .8 else -val)
        out.append({"v": list(v), "a": a, "no": bool(no)})
    return out


def some(r, i, cap):
    """terms with oriented and symmetric degrees of freedom"""
    if i % 4 == 0:
        s = [[0] * len(v) for v in dofs.VOL]
        for x in r.sample([1, 2, 3, 4, 5], r.randint(1, 3)):
            s[x][r.randrange(len(s[x]) - (x == 5))] += 1
        t = {"k": "S", "s": s}
        return {"k": "V", "d": 2, "b": t} if r.random() < .3 and dofs.total(t) * 2 <= cap else t
    while True:
        t = known(r, dofs.term(r, r.choice([0, 1, 1, 2]), cap))
        if dofs.total(t) <= cap:
            return t


def known(r, t):
    """the symmetry of every degree of freedom is known: only then its place follows the vertices"""
    if t["k"] == "U":
        return {"k": "S", "s": [[n if g == 0 else 0 for g in range(len(v))] for n, v in zip(t["n"], dofs.VOL)]}
    if t["k"] == "V":
        return dict(t, b=known(r, t["b"]))
    return dict(t, p=[known(r, x) for x in t["p"]]) if t["k"] == "C" else t


def path(r, t):
    p = []
    while t["k"] in "VC" and r.random() < .7:
        k = r.randrange(t["d"] if t["k"] == "V" else len(t["p"]))
        p.append(k)
        t = t["b"] if t["k"] == "V" else t["p"][k]
    return p


def gather(r, i, cap):
    cs, t = cells(r), some(r, i, cap)
    miss = r.choice([0, 0, 1, 2])
    op = {"op": "gather", "seed": r.randint(1, 10 ** 6), "cells": cs, "old": numbers(r), "term": t, "arr": r.sample(cs[0], 4), "avail": miss > 0 or r.random() < .3, "how": r.randint(0, 1),
          "path": path(r, t) if r.random() < .6 else []}
    if t["k"] in "VC" and r.random() < .35:
        op["op"], op["path"] = "gathers", []
        ch = [t["b"]] * t["d"] if t["k"] == "V" else t["p"]
        op["tags"] = [tag(r, cs, c, miss) for c in ch]
    else:
        op["tags"] = [tag(r, cs, t, miss)]
    return op


def renum(r, i, cap):
    cs, t = cells(r), some(r, i, cap)
    how, shift, block = r.choice([0, 0, 1, 2]), [0] * 4, 1
    if how == 0 and r.random() < .6:
        shift, block = [r.choice([0, 0, 1, 3]) for _ in range(4)], r.choice([1, 2, 3])
    packed = how == 0 and r.random() < .3
    old = numbers(r)
    return {"op": "renum", "seed": r.randint(1, 10 ** 6), "cells": cs, "old": old, "new": numbers(r) if r.random() < .9 else old, "term": t, "how": how, "shift": shift, "block": block, "packed": packed,
            "tags": [tag(r, cs, t, r.random() < .2, block, shift, packed) for _ in range(r.choice([1, 1, 2]))]}


def e02(c):
    q, r = c.quick, c.rng
    c.model("MeshData", constants={"Arrangements": 1 if q else 0, "Broken": "FALSE"}, spec="Spec", invariants=["FaceSigns", "EdgeSigns", "SameStore"])
    c.expect_model_failure("MeshData", "faces compared with the opposite vertex", constants={"Arrangements": 1, "Broken": "TRUE"}, spec="Spec", invariants=["FaceSigns"])
    drv = c.build("meshdata", sources=["anifem++/fem/tetdofmap.cpp"], flags=SAN + ["-I", core.HARN + "/inmost_stub"])
    base = [{"op": "sign", "s": list(p)} for p in itertools.permutations(range(4))]
    for _ in range(300 if q else 3000):
        base.append({"op": "rank", "g": r.sample(range(0, r.choice([4, 6, 1000])), 4), "how": r.randint(0, 2)})
    for _ in range(400 if q else 4000):
        cs = cells(r)
        base.append({"op": "conn", "seed": r.randint(1, 10 ** 6), "cells": cs, "c": r.randrange(len(cs)), "xyz": XYZ, "re": r.random() < .7, "pr": r.random() < .85, "how": r.randint(0, 2)})
    c.conform("MeshDataTrace", drv, base, label="places")
    cap = 80 if q else 140
    c.conform("MeshDataTrace", drv, [gather(r, i, cap) for i in range(700 if q else 6000)], label="gather")
    c.conform("MeshDataTrace", drv, [renum(r, i, cap) for i in range(700 if q else 6000)], label="renumber")
    c.assumptions += ["the symmetry groups of the degrees of freedom are known (maps given by bare counts have none to carry along)", "INMOST itself is absent: its mesh is replaced by a small one in memory with the calls ordering.h makes (harness/inmost_stub)",
                      "meshes of one or two tetrahedra with a common face; local index arrays other than the identity are not exercised"]
