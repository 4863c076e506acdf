"""Work memory: DynMem, PlainMemory, DynMemParallel, parallel_for."""

SZ = "{<<4,2,1>>, <<1,1,0>>, <<0,2,1>>}"
POOL_INV = ["Disjoint", "InChunk", "Counted", "EmptyIsReset", "MarkAbove"]


def m01(c):
    q = c.quick
    c.model("MemPool", constants={"Handles": "1..3" if q else "1..4", "Sizes": SZ, "MaxOps": 6 if q else 7, "Naive": "FALSE"},
            spec="Spec", invariants=POOL_INV, properties=["NoLoss", "NoNeedlessGrowth"], coverage_actions=())
    c.expect_model_failure("MemPool", "part id = number of live parts (ids repeat after a hole)",
                           constants={"Handles": "1..3", "Sizes": "{<<4,0,0>>, <<1,0,0>>}", "MaxOps": 9, "Naive": "TRUE"}, spec="Spec", invariants=["Disjoint"])
    drv = c.build("dynmem", flags=["-fsanitize=address,undefined"])
    beh = c.generate("MemPoolGen", constants={"Handles": "1..3", "Sizes": "{<<2,0,1>>, <<1,2,0>>}", "MaxOps": 6 if q else 7, "Naive": "FALSE"},
                     init="GInit", nxt="GNext", invariants=["Emit"], limit=6000 if q else 60000, timeout=800)
    # finish every behaviour by releasing everything and repeating the allocation pattern once: no growth, everything reusable
    cases = []
    for b in beh:
        tail = [{"op": "destroy" if h % 2 else "free", "h": h} for h in (2, 3, 1)]
        pre = [{"op": "alloc", "h": 1, "s": [8, 6, 6]}, {"op": "free", "h": 1}] if len(cases) % 4 else []
        cases.append(pre + b + tail + [{"op": "alloc", "h": 1, "s": [2, 0, 1]}, {"op": "defrag"}, {"op": "free", "h": 1}, {"op": "defrag"}])
    c.conform("MemPoolTrace", drv, cases, constants={"Handles": "1..8"}, label="spec behaviours")
    r = c.rng
    cases = []
    for _ in range(300 if q else 4000):
        ops, n = [], r.choice([5, 10, 25, 50])
        big = r.random() < .3
        for _ in range(n):
            x, h = r.random(), r.randint(1, 8)
            s = [r.choice([0, 1, 2, 3, 7, 20 if big else 4]) for _ in range(3)]
            if x < .5:
                ops.append({"op": "alloc", "h": h, "s": s})
            elif x < .55:
                ops.append({"op": "talloc", "h": h, "s": s})
            elif x < .8:
                ops.append({"op": "free", "h": h})
            elif x < .85:
                ops.append({"op": "destroy", "h": h})
            elif x < .95:
                ops.append({"op": "move", "h": h, "g": r.randint(1, 8)})
            else:
                ops.append({"op": "defrag"})
        if r.random() < .5:   # release all, replay the same history: the pool must not grow again
            ops += [{"op": "free", "h": h} for h in range(1, 9)] + [{"op": "defrag"}] + ops
        cases.append(ops)
    c.conform("MemPoolTrace", drv, cases, constants={"Handles": "1..8"}, label="random histories")
    c.assumptions += ["a MemPart does not outlive its DynMem; handles <= 8, requests <= 20 elements per kind",
                      "AddressSanitizer/UBSan ends of the driver are recorded as events no specification accepts"]


def m02(c):
    """PlainMemory / PlainMemoryX: aligned, disjoint, inside the region; the promised size always suffices."""
    q, r = c.quick, c.rng
    blocks = "{<<<<d, 8, 8>>, <<i, 4, 4>>, <<m, 32, 8>>>> : d \\in 0..2, i \\in 0..2, m \\in 0..2} \\cup " \
             "{<<<<d, 16, 16>>, <<i, 1, 1>>, <<m, 32, 8>>>> : d \\in 0..2, i \\in 0..3, m \\in 0..1} \\cup " \
             "{<<<<d, 4, 4>>, <<i, 2, 2>>>> : d \\in 0..2, i \\in 0..3}"
    c.model("RawLayout", constants={"Blocks": blocks, "Tight": "FALSE"}, spec="Spec", invariants=["NeverFails", "Sound"])
    c.expect_model_failure("RawLayout", "one byte less than Enough", constants={"Blocks": blocks, "Tight": "TRUE"}, spec="Spec", invariants=["NeverFails"])
    drv = c.build("plainmem", flags=["-fsanitize=address"])
    cases = []
    types = ["di", "fi", "dc", "fs", "fl", "Di"]
    for ty in types:
        for X in (0, 1):
            for res in range(16):
                for _ in range(6 if q else 40):
                    cnt = [r.choice([0, 1, 2, 3, 5, 17]) for _ in range(2 + X)]
                    cases.append({"op": "raw", "ty": ty, "cnt": cnt, "res": res, "delta": r.choice([0, 0, 0, 1, 7, -1, -4, -9, -33]), "four": r.random() < .5})
    for ty in types:
        for frm in (1, 2):
            for res in range(16):
                for _ in range(4 if q else 30):
                    cases.append({"op": "plain", "ty": ty, "from": frm, "cnt": [r.choice([0, 1, 2, 3, 5, 9]) for _ in range(3)], "res": res,
                                  "how": r.randint(0, 2), "delta": r.choice([0, 0, 0, 1, 5, -1, -2])})
    for _ in range(200 if q else 2000):
        n = r.choice([2, 3])
        cases.append({"op": "size", "a": [r.randint(0, 3) for _ in range(n)], "b": [r.randint(0, 3) for _ in range(n)]})
    c.conform("RawLayoutTrace", drv, cases, label="layouts")
    c.assumptions += ["six (scalar, index) type pairs, all 16 address residues; counts <= 17"]


def progs(r, n, length, full):
    P = []
    for t in range(n):
        p = [["alloc"]]
        for _ in range(length):
            x = r.random()
            if x < .4:
                p.append(["alloc"])
            elif x < .8:
                p.append(["release", r.randint(0, 3)])
            elif x < .93 or not full:
                p.append(["get", r.randint(0, 3)])
            else:
                p.append(r.choice([["range", r.randint(1, 2)], ["relrange"]]))
        P.append(p)
    return P


def m03(c):
    """DynMemParallel: a pool is owned by one thread at a time under every schedule."""
    q, r = c.quick, c.rng
    inv = ["Exclusive", "NoDup", "InTable", "HeldNotUnused", "Conserved"]
    c.model("PoolTable", constants={"Threads": "1..3", "MaxPools": 4, "MaxOps": 7 if q else 9, "Atomic": "TRUE"}, spec="Spec", invariants=inv)
    c.expect_model_failure("PoolTable", "alloc not covered by the lock", constants={"Threads": "1..2", "MaxPools": 3, "MaxOps": 6, "Atomic": "FALSE"},
                           spec="Spec", invariants=["Exclusive"])
    drv = c.build("pooltab", flags=["-pthread", "-fsanitize=address"], libs=["-pthread"])
    # every schedule of small programs (two scheduling points per call), plus random larger ones
    import itertools
    cases = []
    small = [[["alloc"], ["release", 0], ["alloc"], ["release", 0]], [["alloc"], ["get", 0], ["release", 0]],
             [["alloc"], ["alloc"], ["release", 0], ["get", 0]], [["range", 2], ["relrange"], ["alloc"]], [["alloc"], ["release", 0], ["range", 1]]]
    for a, b in itertools.product(small, small):
        na, nb = 2 * len(a), 2 * len(b)
        allpos = list(itertools.combinations(range(na + nb), na))
        for pos in (r.sample(allpos, min(len(allpos), 40 if q else 400))):
            s = [1] * (na + nb)
            for x in pos:
                s[x] = 0
            cases.append({"op": "sched", "th": [a, b], "sched": s})
    for _ in range(400 if q else 4000):
        n = r.choice([2, 3, 3])
        P = progs(r, n, r.choice([3, 6, 10]), r.random() < .5)
        cases.append({"op": "sched", "th": P, "sched": [r.randrange(n) for _ in range(2 * sum(map(len, P)))]})
    for _ in range(100 if q else 500):   # one thread: the whole-table calls
        p = []
        for _ in range(12):
            p.append(r.choice([["alloc"], ["alloc"], ["get", 0], ["get", 1], ["release", 0], ["release", 1], ["range", 2], ["range", 1], ["relrange"], ["relall"], ["clear"]]))
        cases.append({"op": "sched", "th": [p], "sched": []})
    r.shuffle(cases)
    c.conform("PoolTableTrace", drv, cases, constants={"NT": 3}, label="controlled schedules")
    tsan = c.build("pooltab", flags=["-pthread", "-fsanitize=thread", "-DVP_TSAN"], libs=["-pthread"])
    st = [{"op": "stress", "th": progs(r, 4, 14, False)} for _ in range(120 if q else 1500)]
    c.conform("PoolTableTrace", tsan, st, constants={"NT": 4}, label="real threads", env={"TSAN_OPTIONS": "exitcode=97:halt_on_error=1"})
    omp = c.build("pooltab", flags=["-pthread", "-fopenmp", "-DWITH_OPENMP", "-fsanitize=address"], libs=["-pthread"])
    st = [{"op": "ostress", "th": progs(r, 4, 14, False), "region": i % 3 > 0} for i in range(80 if q else 1000)]
    c.conform("PoolTableTrace", omp, st, constants={"NT": 4}, label="OpenMP threads and locks")
    c.assumptions += ["ids handed to release are held by the caller; release_all/clear only from a single thread",
                      "controlled schedules switch threads at lock/unlock; real threads run under ThreadSanitizer"]


def m04(c):
    """parallel_for: every iteration exactly once, thread numbers not shared."""
    q, r = c.quick, c.rng
    c.model("ParFor", constants={"MaxN": 6 if q else 8, "MaxT": 3, "Remainder": "TRUE"}, spec="Spec", invariants=["AtMostOnce", "Balanced"], properties=["AllDone"])
    c.model("ParFor", label="ParFor, remainder not spread", constants={"MaxN": 4, "MaxT": 3, "Remainder": "FALSE"}, spec="Spec", invariants=["AtMostOnce"], properties=["AllDone"])
    tsan = c.build("pooltab", flags=["-pthread", "-fsanitize=thread", "-DVP_TSAN"], libs=["-pthread"])
    omp = c.build("pooltab", flags=["-pthread", "-fopenmp", "-DWITH_OPENMP", "-fsanitize=address"], libs=["-pthread"])
    its = ["int", "int", "long", "vec", "ptr"]

    def loops(tp, nts):
        L = []
        for n in list(range(0, 18)) + [31, 64, 100]:
            for nt in nts:
                L.append({"op": "pfor", "tp": tp, "nt": nt, "n": n, "off": r.choice([0, 3, 100, -1, -7, -200]), "iter": r.choice(its)})
        L.append({"op": "mutex", "tp": tp})
        return L
    nts = [-1, 1, 2, 3, 4, 5, 7, 8] + ([16, 13] if not q else [])
    c.conform("ParForTrace", tsan, loops("std", nts) + loops("none", [-1, 1, 4]), label="loops", env={"TSAN_OPTIONS": "exitcode=97:halt_on_error=1"})
    c.conform("ParForTrace", omp, loops("omp", nts) + loops("std", [2, 3]), label="OpenMP loops")
    c.assumptions += ["loop bodies do not throw; ranges are not reversed", "the OpenMP variant is built with -DWITH_OPENMP -fopenmp and AddressSanitizer (ThreadSanitizer does not know libgomp)"]


def m05(c):
    """Views on external memory: exactly the cells of the matrix, nothing else."""
    q, r = c.quick, c.rng
    c.model("Views", constants={"Cells": 4 if q else 5, "Vals": "{-1, 2}", "MaxOps": 2}, spec="Spec",
            invariants=["OneToOne", "Undo", "SelfSub", "NegTwice", "NormZero", "Pythagoras", "EyeNorm"], properties=["Outside"])
    drv = c.build("views", flags=["-fsanitize=address,undefined"])
    U = 4096

    def mx(N, nr=None, nc=None, apart=None):
        for _ in range(200):
            a, b = (r.choice([0, 1, 1, 2, 3, 3, 4, 6]) if nr is None else nr), (r.choice([0, 1, 2, 3, 3, 5]) if nc is None else nc)
            if a * b > N:
                continue
            off = r.randint(0, N - a * b)
            if apart is None or off + a * b <= apart[0] or off >= apart[0] + apart[1] * apart[2] or a * b == 0:
                return [off, a, b]
        return None

    cases = []
    for n in range(400 if q else 5000):
        N = r.choice([1, 4, 9, 16, 24, 40])
        ty = r.choice("ddf")
        ops, halved = [{"op": "heap", "ty": ty, "vals": [r.randint(-9, 9) for _ in range(N)], "roomy": n % 2}], 0
        grow = 0
        for _ in range(r.choice([6, 12])):
            x, v = r.random(), mx(N)
            if v[1] * v[2] and x < .12:
                ops.append({"op": "get", "v": v, "i": r.randrange(v[1]), "j": r.randrange(v[2])})
            elif v[1] * v[2] and x < .2:
                ops.append({"op": "put", "v": v, "i": r.randrange(v[1]), "j": r.randrange(v[2]), "c": r.randint(-9, 9)})
            elif x < .4:
                w = mx(N, v[1], v[2], v) if r.random() < .7 else v
                if w and grow < 6:
                    grow += 1
                    ops.append({"op": r.choice(["add", "sub"]), "v": v, "w": w, "how": r.choice([0, 0, 1, 2])})
            elif x < .5 and grow < 6:
                grow += 2
                ops.append({"op": "mul", "v": v, "c": r.choice([-1, 2, 3, -3, 0, 1]), "how": r.randint(0, 1)})
            elif x < .58 and halved < 5:
                halved += 1
                ops.append({"op": "div", "v": v, "c": r.choice([2, 4, -2, -4, 1]), "how": r.randint(0, 1)})
            elif x < .63:
                ops.append({"op": "zero", "v": v})
            elif x < .7:
                ops.append({"op": "eye", "v": v, "c": r.choice([0, 2, -3])})
            elif x < .78:
                ops.append({"op": "str", "v": v, "vs": r.choice([" ", ", ", ";"]), "rs": r.choice(["\n", "|"])})
            elif x < .86:
                o, k = r.randint(0, N), 0
                k = r.randint(0, N - o)
                ops.append({"op": "arr", "v": [o, k], "f": r.choice(["zero", "shift", "none"])})
            elif x < .93:
                k = r.choice([1, 1, 2, 3, 4])
                row, col = [0], [r.choice([0, 2])]
                for _ in range(k):
                    row.append(row[-1] + r.randint(0, 3)); col.append(col[-1] + r.randint(0, 3))
                ops.append({"op": "band", "parts": [mx(N) for _ in range(k)], "row": row, "col": col})
            elif x < .96:
                ops.append({"op": "conv", "v": v, "dim": r.randint(0, 9), "nf": r.randint(0, 9)})
            else:
                cap = r.choice([-1, v[1] * v[2], N - v[0]])
                ops.append({"op": "make", "v": v, "cap": cap, "how": r.randint(0, 1)})
        cases.append(ops)
    for n in range(150 if q else 1500):   # norms of whole-number matrices
        N = r.choice([4, 9, 16, 24])
        ops = [{"op": "heap", "ty": r.choice("df"), "vals": [r.randint(-9, 9) for _ in range(N)], "roomy": n % 2}]
        for _ in range(6):
            v = mx(N)
            ops.append({"op": "norm", "v": v, "w": mx(N, v[1], v[2]), "a": r.choice([1, -1, 2, -3, 0]), "b": r.choice([0, 0, 1, -1, 2]), "how": r.choice([0, 1, 2])})
        cases.append(ops)
    for k in range(5):
        for ty in "df":
            cases.append([{"op": "heap", "ty": ty, "vals": [1]}, {"op": "legacy", "k": k}])
    c.conform("ViewsTrace", drv, cases, constants={"U": U}, label="views")
    c.assumptions += ["operands of += and -= are the same matrix or do not overlap; heaps of at most 40 cells, entries exact in 1/4096",
                      "AddressSanitizer/UBSan ends of the driver are recorded as events no specification accepts"]
