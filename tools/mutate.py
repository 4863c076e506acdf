#!/usr/bin/env python3
"""Mutation campaign: mutate.py N SEED CHECK[,CHECK..] FILE..   (development tool, no check uses it)
Applies N random small edits, one at a time, to a scratch copy of /repo and runs the checks (without models and self-tests) until
one of them reports a violation.  Survivors are written to /tmp/mut.log for review."""
import importlib, os, random, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MT = os.environ.get("MUT_TREE", "/tmp/mut")


def child(check):
    os.environ["VP_REPO"] = MT
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    from vp import core, registry
    core.EVID = "/tmp/mutev"
    os.makedirs("/tmp/mutev/replay", exist_ok=True)
    C = core.Ctx
    C.model = lambda *a, **k: core.TlcResult(0, "", 0)
    C.expect_model_failure = lambda *a, **k: None
    C.binding_selftest = lambda *a, **k: None
    conf = C.conform

    def conform(self, *a, **k):
        if not self.violations:
            return conf(self, *a, **k)
    C.conform = conform
    mod, fn, level, title = registry.CHECKS[check]
    ctx = C(check, "quick", int(os.environ.get("VERIF_SEED", "1")), level, title)
    try:
        getattr(importlib.import_module("vp." + mod), fn)(ctx)
    except core.CheckError as e:
        if not ctx.violations:
            print("CHECK-ERROR", str(e)[:1500])
            sys.exit(3 if "does not build" in str(e) or "does not link" in str(e) else 2)
    if ctx.violations:
        print(ctx.violations[0]["what"][:200])
        sys.exit(1)
    sys.exit(0)


SWAPS = [(r"(?<![<>=!\-+*/&|])<(?![<=])(?= )", "<="), (r"<=", "<"), (r"(?<![\->])>(?![>=])(?= )", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"(?<=\w)\+(?=\w)", "-"), (r"(?<=\w)-(?=\w)", "+"), (r"(?<=\w)\*(?=\w)", "+"), (r"\+=", "-="), (r"-=", "+="), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b1\b(?!\.)", "2"), (r"\b2\b(?!\.)", "1"), (r"\b2\b(?!\.)", "3"),
         (r"\b3\b(?!\.)", "2"), (r"\b3\b(?!\.)", "4"), (r"\b4\b(?!\.)", "3"), (r"\b6\b(?!\.)", "5"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\+1\b", ""), (r"-1\b", ""), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\bk\b", "l"),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\.first\b", ".second"), (r"\.second\b", ".first"), (r"std::prev", "std::next"), (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"),
         (r"\+\+(\w+)", r"\1"), (r"!(?=[\w(])", ""), (r"\bif ?\((.*)\)", r"if (!(\1))"), (r"\bx\b", "y"), (r"\brow\b", "col"), (r" / ", " * ")]


def sites(t):
    out, com = [], False
    for n, ln in enumerate(t):
        s = ln.strip()
        if com:
            com = "*/" not in s
            continue
        if s.startswith("/*"):
            com = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "template", "using", "typedef", "assert", "throw", "namespace", "class", "struct", "static_assert", "friend", "return false; //")) or "assert" in s or "throw" in s or "enable_if" in s or "static constexpr" in s:
            continue
        code = ln.split("//")[0]
        for a, b in SWAPS:
            for m in re.finditer(a, code):
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                out.append((n, new))
        if re.match(r"^\s*[\w\[\]().>*,+ -]+ ?([+*/-]?=|\().*;\s*$", code) and not re.match(r"^\s*(return|auto|const|static|std::|double|int|for|if|while|else|FT|VT|unsigned|size_t|delete|inline|virtual|break|continue|explicit|\w+(<.*>)?[&*]? \w+ ?[=(;{])", code):
            out.append((n, re.match(r"\s*", code).group(0) + ";"))
            out.append((n, re.match(r"\s*", code).group(0) + ";"))
    return out


def main():
    n, seed, checks, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3].split(","), sys.argv[4:]
    rng = random.Random(seed)
    if not os.path.isdir(MT):
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", MT], check=True, env=dict(os.environ, GIT_LFS_SKIP_SMUDGE="1"))
    subprocess.run(["git", "-C", MT, "checkout", "-q", "--", "."], check=True)
    subprocess.run(["git", "-C", MT, "checkout", "-q", "--detach", subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()], check=True)
    pool = []
    for f in files:
        t = open(os.path.join(MT, f)).read().split("\n")
        lo = hi = None
        by = {}
        for ln, new in sites(t):
            by.setdefault(ln, []).append(new)
        pool += [(f, ln, v) for ln, v in by.items()]
    log = open("/tmp/mut.log", "a")
    done = kill = 0
    while done < n:
        f, ln, v = rng.choice(pool)
        new = rng.choice(v)
        p = os.path.join(MT, f)
        t = open(p).read().split("\n")
        old = t[ln]
        t[ln] = new
        open(p, "w").write("\n".join(t))
        t0 = time.time()
        try:
            res = None
            for c in checks:
                try:
                    r = subprocess.run([sys.executable, os.path.abspath(__file__), "--child", c], capture_output=True, text=True, timeout=500)
                    rc, o = r.returncode, r.stdout + r.stderr
                except subprocess.TimeoutExpired:
                    rc, o = 9, "timeout"
                if rc != 0:
                    res = (c, rc, o)
                    break
        finally:
            subprocess.run(["git", "-C", MT, "checkout", "-q", "--", "."], check=True)
        if res and res[1] == 3:
            continue
        done += 1
        kill += bool(res and res[1] == 1)
        st = "SURVIVED" if not res else "killed by " + res[0] if res[1] == 1 else "ERROR %s rc=%d %s" % (res[0], res[1], res[2][-300:].replace("\n", " "))
        line = "%s [%.0fs] %s:%d\n   - %s\n   + %s" % (st, time.time() - t0, f, ln + 1, old.strip()[:200], new.strip()[:200])
        print(line, flush=True)
        if st[0] != "k":
            log.write(",".join(checks) + " " + line + "\n")
            log.flush()
    print("%s: %d of %d killed" % (sys.argv[3], kill, done))
    log.close()


if __name__ == "__main__":
    if sys.argv[1] == "--child":
        child(sys.argv[2])
    main()
