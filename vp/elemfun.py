"""Elemental functions for the assembler: check E01 (specs ElemFun, Wrapper; trace specification ElemFunTrace)."""
from .fem import ASAN


def pattern(r, mx=5):
    m, n = r.randint(1, mx), r.randint(0, mx)
    p = r.choice([0, .2, .5, .8, 1])
    col, row = [0], []
    for _ in range(n):
        row += [i for i in range(m) if r.random() < p]
        col.append(len(row))
    return m, n, col, row


def dense(m, n):
    return [m * j for j in range(n + 1)], [i for _ in range(n) for i in range(m)]


def onepat(r, mx=4):
    m, n, col, row = pattern(r, mx)
    d = r.random() < .4
    if d:
        col, row = dense(m, n)
    return {"m": m, "n": n, "col": col, "row": row, "dense": d}


def session(r, length):
    """Slots 0..4; val[s] is "d" (by value), "h" (holder) or absent."""
    ty = r.choice(["nld", "nif", "sdi"])
    ops, val, used = [], {}, set()

    def mk(s):
        kind = r.choice(["raw", "raw", "io", "io", "plain", "ud", "wiud", "wi", "full", "full"])
        o = {"op": "mk", "s": s, "kind": kind, "as": r.choice(["both", "mat", "rhs"]), "tag": r.randint(1, 50), "nr": r.randint(1, 5), "nc": r.randint(1, 5),
             "nw": r.randint(0, 6), "niw": r.randint(0, 6), "ud": r.random() < .5, "dm": r.random() < .7, "hold": r.choice([0, 0, 0, 1, 2, 3, 4, 5])}
        if kind == "raw":
            o.update({"in": [onepat(r, 3) for _ in range(r.randint(0, 3))], "out": [onepat(r, 3) for _ in range(r.randint(0, 3))], "rc": r.choice([0, 0, 1, -3, 7])})
        used.discard(s)
        # holders made from a slot that is no holder yet are built anew
        val[s] = "d" if o["hold"] == 0 else "h"
        return o

    ops.append(mk(0))
    while len(ops) < length:
        live = sorted(val)
        if not live:
            ops.append(mk(r.randint(0, 4)))
            continue
        s, t, x = r.choice(live), r.randint(0, 4), r.random()
        if x < .1:
            ops.append(mk(r.randint(0, 4)))
        elif x < .2 and val[s] == "d" and s != t:
            o = r.choice(["copy", "hold", "assign", "assign", "move", "massign"])
            if o in ("assign", "massign") and val.get(t) != "d":
                continue
            if o in ("move", "massign") and ty == "sdi":      # a table guarded by a real mutex stays where it is
                continue
            ops.append({"op": o, "s": s, "t": t})
            val[t] = "h" if o == "hold" else "d"
            if o in ("move", "massign"):
                del val[s]
        elif x < .27 and val[s] == "h" and s != t:
            ops.append({"op": "share", "s": s, "t": t, "asg": r.random() < .5})
            val[t] = "h"
        elif x < .29:
            ops.append({"op": "drop", "s": s})
            del val[s]
        elif x < .3:
            ops.append({"op": "empty", "s": s, "hold": r.random() < .5})
        elif x < .42:
            ops.append({"op": "setup", "s": s})
        elif x < .47:
            ops.append({"op": "range", "s": s, "n": r.randint(1, 3)})
        elif x < .6:
            ops.append({"op": r.choice(["release", "release", "release", "relrange", "relall", "clear", "defrag", "defrag"]), "s": s, "k": r.randint(0, 5)})
        else:
            ops.append({"op": "call", "s": s, "x": [r.randint(-5, 9) for _ in range(12)], "gw": r.random() < .7, "gu": r.random() < .6, "ud": r.randint(0, 20),
                        "k": r.choice([-1, 0, 0, 1, 2, 3]), "mem": r.random() < .5})
    for o in ops:
        o["ty"] = ty
    return ops


def e01(c):
    q, r = c.quick, c.rng
    c.model("ElemFun", constants={"Naive": "FALSE"}, spec="Spec", invariants=["PatternLegal", "RoundTrip", "InPlaceFull", "MaskCounts", "DenseIsAll"])
    c.expect_model_failure("ElemFun", "unpacking inside one array from the front", constants={"Naive": "TRUE"}, spec="Spec", invariants=["InPlaceFull"])
    c.model("Wrapper", constants={"Slots": "1..3", "MaxOps": 6 if q else 7, "Shared": "FALSE"}, spec="Spec", invariants=["UsedExists"])
    c.expect_model_failure("Wrapper", "a copy shares the table of pools", constants={"Slots": "1..2", "MaxOps": 6, "Shared": "TRUE"}, spec="Spec", invariants=["UsedExists"])
    drv = c.build("elemfun", flags=ASAN)
    cases = []
    for _ in range(1500 if q else 12000):
        m, n, col, row = pattern(r, r.choice([2, 3, 5, 7]))
        d = r.random() < .25
        if d:
            col, row = dense(m, n)
        cases.append({"op": "pattern", "ty": r.choice(["ld", "if", "ii", "sl"]), "how": r.choice(["own", "ofown", "view", "ctor", "data"]), "dense": d, "m": m, "n": n,
                      "col": col, "row": row, "dat": [r.randint(-50, 50) for _ in row], "full": [r.randint(-50, 50) for _ in range(m * n)], "fill": r.choice([0, -3, 8])})
    c.conform("ElemFunTrace", drv, cases, label="patterns")
    c.conform("ElemFunTrace", drv, [session(r, r.choice([6, 15, 40])) for _ in range(600 if q else 6000)], label="wrappers")
    c.assumptions += ["patterns up to 7 x 7, rows increasing inside a column; scalar types double, float, int, long with int, long, short indexes",
                      "functions evaluated on small integers, so float and double are exact; wrappers guarded by a real mutex are not moved while memory is held"]
