"""Enumerators and interval containers."""
import itertools


def enum_cases(c, types, count, mapped):
    r = c.rng
    cases = []
    for i in range(count):
        N = r.choice([1, 2, 2, 3, 3, 4])
        D = r.choice([2, 3, 4]) if N < 4 else r.choice([2, 3])
        space = list(itertools.product(range(D), repeat=N))
        k = r.choice([0, 1, 2, 4, 8, 12])
        ord_ = [list(x) for x in r.sample(space, min(k, len(space)))]
        if r.random() < .2 and ord_:
            ord_.append(r.choice(ord_))
        zero = r.random() < .35
        rg = [r.randint(0 if zero else 1, 4) for _ in range(D)]
        n, m = r.randint(0, N), r.randint(0, N - 1)
        maps = []
        if mapped:
            for v in range(4):
                cnt = rg[v] if v < D else 0
                vals, x = [], r.randint(0, 4)
                for _ in range(cnt):
                    vals.append(x)
                    x += r.choice([1, 1, 1, 2, 5])
                maps.append(vals)
        ops = [{"op": "enum", "N": N, "ty": r.choice(types), "ord": ord_, "n": n, "m": m, "rg": rg, "maps": maps, "via": r.randint(0, 1)}]
        B = []
        for a in sorted(set(map(tuple, ord_))):
            for s in range(rg[a[m]]):
                v = maps[a[m]][s] if mapped else s
                B.append(list(a[:n]) + [v] + list(a[n:]))
        nb = len(B)
        for _ in range(12):
            if r.random() < .6 and B:
                q = list(r.choice(B))
                if r.random() < .7:
                    j = r.randrange(N + 1)
                    q[j] = max(0, q[j] + r.choice([-1, 1, 2]))
            else:
                q = [r.randrange(D) for _ in range(N + 1)]
                q[n] = r.randint(0, 6)
            g = m + (1 if n <= m else 0)
            q[g] = min(q[g], D - 1)
            ops.append({"op": "q", "a": q})
        for _ in range(4):
            k = r.randint(0, nb)
            steps, p = [], k
            if nb == 0:
                continue
            for _ in range(r.randint(1, 8)):
                d = r.choice([1, 1, -1, -1, r.randint(-3, 3), r.randint(-nb, nb)])
                if 0 <= p + d <= nb and not (p == nb and d >= 0):   # the end iterator is not incremented
                    steps.append(d)
                    p += d
            ops.append({"op": "walk", "k": k, "steps": steps})
        if r.random() < .1:
            ops.append({"op": "clear"})
        cases.append(ops)
    return cases


def i01(c):
    q = c.quick
    c.model("ArrayEnum", constants={"Digits": "0..1", "MaxRange": 2}, spec="Spec",
            invariants=["Bijective", "Inverse", "Monotone", "Size"], properties=["StepOrder"])
    drv = c.build("arrenum", flags=["-fsanitize=address"])
    cases = enum_cases(c, ["uu", "il"], 900 if q else 20000, False)
    c.conform("ArrayEnumTrace", drv, cases, label="ext_range_array_enum", tlc_timeout=850)
    c.assumptions += ["tuple length 1..4, components < 4, ranges 0..4; the governing component of a query lies in the domain of the range function"]


def i02(c):
    q = c.quick
    c.model("ArrayEnum", constants={"Digits": "0..1", "MaxRange": 2}, spec="Spec",
            invariants=["Bijective", "Inverse", "Monotone", "Size"], properties=["StepOrder"])
    drv = c.build("arrenum", flags=["-fsanitize=address", "-DMAPPED"])
    cases = enum_cases(c, ["mo", "mx"], 700 if q else 15000, True)
    c.conform("ArrayEnumTrace", drv, cases, label="ext_array_enum", tlc_timeout=850)
    c.assumptions += ["the interval map of a component has as many values as its range"]


LO, HI = -20, 20


def ivl_extra(r, rounds=True):
    ops = []
    for k in r.sample(range(LO + 1, HI), 6):
        ops.append({"op": "qry", "k": k})
    return ops


TRAITS = [(":", "->", ";", " \t"), ("..", "=>", "|", " "), ("~", "@@@", ",,", " "), (":", "->", ";", "_"), ("to", "is", "and", " \t")]


def ivl_cases(c, n):
    r = c.rng
    cases = []
    for _ in range(n):
        lo, hi = r.choice([(-3, 4), (-6, 8), (-15, 15), (0, 3)])
        nv = r.choice([1, 2, 2, 3])
        ops = []
        for _ in range(r.randint(1, 9)):
            a, b = r.randint(lo, hi), r.randint(lo, hi)
            if r.random() < .95:
                a, b = min(a, b), max(a, b)
            if r.random() < .15:
                a = LO
            if r.random() < .15:
                b = HI + 1
            ops.append({"op": "ins", "s": a, "e": b, "v": r.randint(1, nv)})
            if r.random() < .4:
                ops.append({"op": "qry", "k": r.randint(max(lo - 2, LO + 1), min(hi + 2, HI - 1))})
            if r.random() < .03:
                ops.append({"op": "clear"})
            if r.random() < .15:
                t = r.choice(TRAITS)
                ops.append({"op": "round", "id": t[0], "md": t[1], "ed": t[2], "ig": t[3]})
        for k in range(lo - 2, hi + 3):
            if LO < k < HI:
                ops.append({"op": "qry", "k": k})
        t = r.choice(TRAITS)
        ops.append({"op": "round", "id": t[0], "md": t[1], "ed": t[2], "ig": t[3]})
        # a hand-written text
        items, txt = [], []
        for _ in range(r.randint(0, 5)):
            a, b = sorted((r.randint(lo, hi), r.randint(lo, hi)))
            a = LO if r.random() < .2 else a
            b = HI + 1 if r.random() < .2 else b
            v = r.randint(1, nv)
            items.append([a, b, v])
            sp = lambda: "".join(r.choice(t[3]) for _ in range(r.choice([0, 0, 1, 2])))
            txt.append(sp() + ("" if a == LO else str(a)) + sp() + t[0] + sp() + ("" if b == HI + 1 else str(b)) + sp() + t[1] + sp() + str(v) + sp())
        bad = False
        s = t[2].join(txt)
        if txt and r.random() < .3:
            s += t[2]
        if txt and r.random() < .2:
            bad = True
            i = r.randrange(len(txt))
            k = r.choice([0, 1, 2])
            if k == 0:
                txt[i] = txt[i].replace(t[0], "", 1)
            elif k == 1:
                txt[i] = txt[i].replace(t[1], "", 1)
            else:
                txt[i] = txt[i][:txt[i].index(t[1]) + len(t[1])]
            s = t[2].join(txt)
        pos, count = 0, 0
        if r.random() < .2 and not bad and txt:
            pos = 3
            count = 3 + len(s)
            s = "xyz" + s
        ops.append({"op": "parse", "text": s, "items": items, "bad": bad, "id": t[0], "md": t[1], "ed": t[2], "ig": t[3], "pos": pos, "count": count})
        cases.append(ops)
    return cases


def i04(c):
    q = c.quick
    c.model("IntervalMap", constants={"LoKey": -2, "HiKey": 2 if q else 3, "Values": "{1, 2}"}, spec="Spec",
            invariants=["TypeOK", "Canonical", "Commute"], properties=["NoOverwrite"])
    beh = c.generate("IntervalMapGen", constants={"LoKey": -2, "HiKey": 2, "Values": "{1, 2}", "MaxLen": 3}, init="GInit", nxt="GNext",
                     invariants=["GReport"], limit=3000 if q else None)
    cases = []
    fix = lambda o: dict(o, s=LO if o["s"] == -2 else o["s"], e=HI + 1 if o["e"] == 3 else o["e"])
    for b in beh:
        ops = [fix(o) for o in b] + [{"op": "qry", "k": k} for k in (-3, -1, 0, 1, 2, 3)]
        cases.append(ops + [{"op": "round", "id": ":", "md": "->", "ed": ";", "ig": " "}])
    drv = c.build("ivlmap", flags=["-fsanitize=address,undefined"])
    K = {"LoKey": LO, "HiKey": HI}
    c.conform("IntervalMapTrace", drv, cases, label="behaviours generated from IntervalMap", constants=K)
    c.conform("IntervalMapTrace", drv, ivl_cases(c, 500 if q else 8000), label="random insertions", constants=K)
    c.assumptions += ["integer keys and values; intervals written in text do not contain the delimiters"]


def i03_cases(c, n):
    r = c.rng
    cases = []
    for _ in range(n):
        vals, x = [], r.randint(-5, 5)
        for _ in range(r.choice([0, 1, 2, 3, 5, 8, 13])):
            vals.append(x)
            x += r.choice([1, 1, 1, 2, 4])
        blocks = [[i, v] for i, v in enumerate(vals) if i == 0 or vals[i - 1] + 1 != v]
        if vals:
            blocks.append([len(vals), vals[-1] + 1])
        ops = [{"op": "build", "ty": r.choice(["oi", "ol", "xi", "xl"]), "v": vals, "blocks": blocks, "set": r.random() < .5}]
        lo, hi = (vals[0], vals[-1]) if vals else (0, 0)
        ops += [{"op": "left", "k": k} for k in range(-2, len(vals) + 3)]
        ops += [{"op": "right", "k": k} for k in range(lo - 2, hi + 3)]
        if vals:
            for _ in range(6):
                ops.append({"op": "cmp", "a": r.randint(0, len(vals)), "b": r.randint(0, len(vals))})
            for _ in range(3):
                a = r.randint(0, len(vals))
                p, st = a, []
                for _ in range(r.randint(1, 12)):
                    d = r.choice([1, -1])
                    if 0 <= p + d <= len(vals):
                        st.append(d)
                        p += d
                ops.append({"op": "walk", "a": a, "steps": st})
        if r.random() < .2:
            ops += [{"op": "clear"}, {"op": "left", "k": 0}, {"op": "right", "k": lo}]
        cases.append(ops)
    return cases


def i03(c):
    q = c.quick
    c.model("IvlEnum", constants={"Universe": "0..%d" % (9 if q else 12)}, spec="Spec", invariants=["RoundTrip", "Inverse", "Bounds"])
    drv = c.build("ivlenum", flags=["-fsanitize=address,undefined"])
    c.conform("IvlEnumTrace", drv, i03_cases(c, 500 if q else 8000), label="interval_enum")
    c.assumptions += ["signed integer keys; up to 13 values; iterators are compared within one container"]
