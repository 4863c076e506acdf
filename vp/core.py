"""Shared machinery of the checks: TLC runs, driver builds, trace validation, evidence, verdicts.

Verdict discipline
  exit 0   everything explored satisfied the property
  exit 1   + "VIOLATION property=<id> replay=<path>": a behaviour of the real code was rejected by the
           specification, and the rejection repeated when the same script was executed again
  exit 2   anything else (model does not check, driver does not build, TLC died, ...)
"""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
WORK = os.path.join(VERIF, ".work")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


# trace specifications with silent steps: TLC explores every explanation, acceptance = some branch reaches the end
BRANCHING = {"PoolTableTrace"}


class CheckError(Exception):
    pass


def log(*a):
    print("[%s]" % time.strftime("%H:%M:%S"), *a, flush=True)


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0

    @property
    def ok(self):
        return self.rc == 0

    @property
    def rejected(self):  # deadlock / safety / liveness / assertion on behaviours
        return self.rc in (10, 11, 12, 13, 14)


def wrap(module, workdir, name, constants):
    """Constants of a configuration may be arbitrary TLA+ expressions: define them in a wrapper module."""
    with open(os.path.join(workdir, name + ".tla"), "w") as f:
        f.write("---- MODULE %s ----\nEXTENDS %s\n" % (name, module))
        for k, v in constants.items():
            f.write("c_%s == %s\n" % (k, v))
        f.write("====\n")
    return {k: "c_" + k for k in constants}


def run_tlc(module, cfg, workdir, env=None, workers=1, extra=(), timeout=600, heap="3g", deadlock=True, stack="64m"):
    meta = os.path.join(workdir, "meta-%s-%d" % (module, random.SystemRandom().randrange(1 << 40)))
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC", "-Xss" + stack, "-Xmx" + heap, "-cp", JARS,
           "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra)
    p = os.path.join(workdir, module + ".tla")
    cmd.append(p if os.path.exists(p) else os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = p.stdout.decode("utf8", "replace"), p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode("utf8", "replace") + "\nTIMEOUT", 255
    shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(rc, out, time.time() - t0)


def write_cfg(path, constants=None, init=None, nxt=None, spec=None, invariants=(), properties=(), constraint=None,
              action_constraint=None, postcondition=None, view=None, symmetry=None, overrides=None):
    L = []
    if spec:
        L.append("SPECIFICATION " + spec)
    if init:
        L.append("INIT " + init)
    if nxt:
        L.append("NEXT " + nxt)
    if constants or overrides:
        L.append("CONSTANTS")
        for k, v in (constants or {}).items():
            L.append("  %s = %s" % (k, v))
        for k, v in (overrides or {}).items():
            L.append("  %s <- %s" % (k, v))
    for i in invariants:
        L.append("INVARIANT " + i)
    for i in properties:
        L.append("PROPERTY " + i)
    if constraint:
        L.append("CONSTRAINT " + constraint)
    if action_constraint:
        L.append("ACTION_CONSTRAINT " + action_constraint)
    if postcondition:
        L.append("POSTCONDITION " + postcondition)
    if view:
        L.append("VIEW " + view)
    if symmetry:
        L.append("SYMMETRY " + symmetry)
    with open(path, "w") as f:
        f.write("\n".join(L) + "\n")
    return path


def repo_hash(subdirs=("anifem++",)):
    h = hashlib.sha256()
    for sd in subdirs:
        root = os.path.join(REPO, sd)
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class Ctx:
    def __init__(self, prop, tier, seed, level, title):
        self.prop, self.tier, self.seed, self.level, self.title = prop, tier, seed, level, title
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.t0 = time.time()
        self.work = os.path.join(WORK, "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(EVID, exist_ok=True)
        self.states = self.transitions = 0
        self.models = []
        self.traces = 0
        self.events = 0
        self.samples = []
        self.violations = []
        self.known_hits = []
        self.assumptions = []
        self.extra = {}
        self.known = load_known(prop)
        self.nfile = 0

    # ---------------------------------------------------------------- models
    def path(self, name):
        return os.path.join(self.work, name)

    def config(self, module, cfg):
        """-> (wrapper module, cfg file)"""
        self.nfile += 1
        cfg = dict(cfg)
        consts = cfg.pop("constants", None) or {}
        name = "MC%d_%s" % (self.nfile, module)
        cfg["overrides"] = wrap(module, self.work, name, consts)
        return name, write_cfg(self.path(name + ".cfg"), **cfg)

    def model(self, module, label=None, workers=NCPU, timeout=800, heap="8g", deadlock=False, min_states=2,
              coverage_actions=(), **cfg):
        """Exhaustively model-check a bounded instance of the specification.  A failure here is an error of the
        specification (exit 2), never a violation by the code."""
        label = label or module
        module, c = self.config(module, cfg)
        extra = ["-coverage", "1"] if coverage_actions else []
        r = run_tlc(module, c, self.work, workers=workers, timeout=timeout, heap=heap, deadlock=deadlock, extra=extra)
        if not r.ok:
            raise CheckError("specification %s does not model-check (rc=%d):\n%s" % (label, r.rc, r.out[-4000:]))
        if r.distinct < min_states:
            raise CheckError("specification %s explored only %d states" % (label, r.distinct))
        for a in coverage_actions:
            m = re.search(r"<%s [^>]*>: (\d+):(\d+)" % a, r.out)
            if not m or int(m.group(2)) == 0:
                raise CheckError("vacuous model %s: action %s never taken" % (label, a))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"model": label, "distinct_states": r.distinct, "states_generated": r.generated,
                            "depth": r.depth, "wall_s": round(r.wall, 1)})
        log("model %s: %d distinct states, %d transitions, %.1fs" % (label, r.distinct, r.generated, r.wall))
        return r

    def expect_model_failure(self, module, label, timeout=300, deadlock=False, **cfg):
        """A deliberately wrong variant of the specification must be refuted: shows the invariants are not vacuous."""
        module, c = self.config(module, cfg)
        r = run_tlc(module, c, self.work, workers=NCPU, timeout=timeout, deadlock=deadlock)
        if r.rc not in (11, 12, 13):
            raise CheckError("wrong variant %s of %s was not refuted (rc=%d):\n%s" % (label, module, r.rc, r.out[-3000:]))
        self.extra.setdefault("refuted_wrong_variants", []).append(label)

    def generate(self, module, tag="BEH", simulate=None, depth=None, timeout=600, limit=None, workers=1, **cfg):
        """Behaviours generated by TLC from the specification: the spec prints lines  <<"BEH", "json">> ."""
        module, c = self.config(module, cfg)
        extra = []
        if simulate:
            extra += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed * 7919 + self.nfile)]
            if depth:
                extra += ["-depth", str(depth)]
        r = run_tlc(module, c, self.work, workers=workers, timeout=timeout, heap="6g", deadlock=False, extra=extra)
        if not r.ok:
            raise CheckError("behaviour generation from %s failed (rc=%d):\n%s" % (module, r.rc, r.out[-4000:]))
        res, seen = [], set()
        for line in r.out.splitlines():
            if line.startswith('<<"%s", "' % tag):
                s = line[len('<<"%s", ' % tag):-2]
                if s in seen:
                    continue
                seen.add(s)
                res.append(json.loads(json.loads(s)))
        if not simulate:
            self.states += r.distinct
            self.transitions += r.generated
            self.models.append({"model": module + " (behaviour generation)", "distinct_states": r.distinct,
                                "states_generated": r.generated, "depth": r.depth, "wall_s": round(r.wall, 1)})
        if not res:
            raise CheckError("no behaviour generated from %s\n%s" % (module, r.out[-2000:]))
        log("generated %d behaviours from %s in %.1fs" % (len(res), module, r.wall))
        if limit and len(res) > limit:
            self.rng.shuffle(res)
            res = res[:limit]
        return res

    # ---------------------------------------------------------------- drivers
    def build(self, name, sources=(), flags=(), libs=(), cxx="g++", std="c++14", opt="-O1", parts=0):
        """Build harness/<name>.cpp together with sources of the repository, from /repo's working tree.
        parts = n: the harness is compiled n times, with VPPART = 0 .. n-1 (a heavy translation unit cut in n)."""
        src = os.path.join(HARN, name + ".cpp")
        h = hashlib.sha256()
        h.update(repo_hash().encode())
        for f in sorted(os.listdir(HARN)):
            if f.endswith((".h", ".hpp")) or f == name + ".cpp":
                h.update(open(os.path.join(HARN, f), "rb").read())
        h.update(repr((sources, flags, libs, cxx, std, opt, parts)).encode())
        key = h.hexdigest()[:20]
        os.makedirs(BUILD, exist_ok=True)
        out = os.path.join(BUILD, "%s-%s" % (name, key))
        if os.path.exists(out):
            return out
        for f in os.listdir(BUILD):  # drop stale builds of this driver
            if f.startswith(name + "-"):
                p = os.path.join(BUILD, f)
                try:
                    if time.time() - os.path.getmtime(p) > 3600:
                        os.unlink(p)
                except OSError:
                    pass
        tmp = tempfile_dir(self.work, "build-" + name)
        objs, jobs = [], []
        base = [cxx, "-std=" + std, opt, "-g1", "-w", "-I", REPO, "-I", HARN] + list(flags)
        t0 = time.time()
        units = [(src, ["-DVPPART=%d" % i]) for i in range(parts)] or [(src, [])]
        for i, (s, fl) in enumerate(units + [(os.path.join(REPO, s), []) for s in sources]):
            o = os.path.join(tmp, "o%d.o" % i)
            objs.append(o)
            jobs.append(base + fl + ["-c", s, "-o", o])
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for cmd, p in zip(jobs, ex.map(lambda c: subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), jobs)):
                if p.returncode != 0:
                    raise CheckError("driver does not build: %s\n%s" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-6000:]))
        cmd = base + objs + ["-o", out + ".tmp"] + list(libs)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise CheckError("driver does not link: %s\n%s" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-6000:]))
        os.replace(out + ".tmp", out)
        log("built %s in %.1fs" % (name, time.time() - t0))
        return out

    def run_driver(self, binary, script, trace, args=(), timeout=300, env=None):
        """Execute a script on the real code; an abnormal end becomes an event that no specification accepts."""
        e = dict(os.environ)
        e.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98",
                  "TSAN_OPTIONS": "exitcode=97:halt_on_error=1"})
        e.update(env or {})
        try:
            p = subprocess.run([binary, script, trace] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
            rc, err = p.returncode, p.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            rc, err = "timeout", ""
        if rc == 3:
            raise CheckError("driver refused the script %s: %s" % (script, err[-2000:]))
        if rc != 0:
            tail = b""
            if os.path.exists(trace):
                tail = open(trace, "rb").read()
                if tail and not tail.endswith(b"\n"):  # torn last line
                    tail = tail[:tail.rfind(b"\n") + 1]
            with open(trace, "wb") as f:
                f.write(tail)
                f.write((json.dumps({"op": "crash", "rc": str(rc), "err": brief(err)}) + "\n").encode())
        return rc, err

    # ---------------------------------------------------------------- trace validation
    def validate_one(self, module, trace, timeout, constants, idx, extra_env=None, keep=False, strict=False):
        name = re.sub(r"\W", "_", "T_%s_%s" % (module, idx))
        branching = module in BRANCHING
        cfg = write_cfg(self.path(name + ".cfg"), overrides=wrap(module, self.work, name, constants or {}), init="TInit", nxt="TNext",
                        **({"constraint": "TConstraint", "postcondition": "TReport"} if branching else {}))
        module = name
        env = {"TRACE": trace}
        env.update(extra_env or {})
        r = run_tlc(module, cfg, self.work, env=env, workers=1, timeout=timeout, heap="3g", deadlock=not branching)
        if not r.ok and r.rc not in (11, 12):   # TLC itself gave up
            r = run_tlc(module, cfg, self.work, env=env, workers=1, timeout=timeout, heap="6g", deadlock=not branching, stack="600m")
        if branching and r.ok:  # unlogged choices: accepted when some branch explains every event
            m = re.search(r'<<"FURTHEST", (\d+), (\d+)>>', r.out)
            if not m:
                raise CheckError("no report from %s:\n%s" % (module, r.out[-3000:]))
            return (None if int(m.group(1)) > int(m.group(2)) else int(m.group(1))), r
        if r.ok:
            return None, r
        if r.rc == 11 or r.rc == 12:
            m = re.findall(r"^/?\\?\s*(?:/\\ )?l = (\d+)", r.out, re.M)
            if not m:
                raise CheckError("cannot locate the rejected event in TLC output:\n" + r.out[-3000:])
            return int(m[-1]), r
        # an observation of a shape or size no correct one has: TLC cannot even evaluate the condition on it
        m = re.findall(r"^/?\\?\s*(?:/\\ )?l = (\d+)", r.out, re.M)
        if m and not strict and r.rc == 75 and "The error occurred when TLC was evaluating" in r.out and not re.search("StackOverflow|OutOfMemory", r.out):
            return int(m[-1]), r
        raise CheckError("TLC failed on trace %s (rc=%d):\n%s" % (trace, r.rc, r.out[-4000:]))

    def conform(self, module, binary, cases, args=(), constants=None, shards=None, drv_timeout=None, tlc_timeout=800,
                label="", key=None, corrupt=True, min_events=1, nontrivial=None, env=None):
        """Run every case (list of JSON-able ops, or a dict = one op) on the real code, validate the recorded traces with
        the trace specification `module`.  Returns the number of rejected cases."""
        if not cases:
            raise CheckError("no cases for " + label)
        if self.violations and time.time() - self.t0 > 240:
            log("%s skipped: violations already found" % label)
            return 0
        drv_timeout = drv_timeout or (60 if self.quick else 600)
        shards = min(shards or NCPU, len(cases))
        per = (len(cases) + shards - 1) // shards
        groups = [cases[i:i + per] for i in range(0, len(cases), per)]
        self.nfile += 1
        base = "%s-%d" % (label or module, self.nfile)

        def write_script(p, cs):
            with open(p, "w") as f:
                for n, c in enumerate(cs):
                    f.write(json.dumps({"op": "case", "n": n}) + "\n")
                    for o in (c if isinstance(c, list) else [c]):
                        f.write(json.dumps(o) + "\n")

        def one(i):
            sp, tp = self.path("%s-%d.script" % (base, i)), self.path("%s-%d.trace" % (base, i))
            write_script(sp, groups[i])
            rc, err = self.run_driver(binary, sp, tp, args, drv_timeout, env)
            t1 = time.time()
            bad, r = self.validate_one(module, tp, tlc_timeout, constants, "%s-%d" % (base, i))
            if os.environ.get("VP_DEBUG"):
                log("shard %d of %s: driver and TLC until %.1fs, TLC %.1fs" % (i, label, time.time() - t0, time.time() - t1))
                shutil.copy(tp, os.path.join(os.environ["VP_DEBUG"], os.path.basename(tp)))
            return i, bad, r, tp

        nev, rejected = 0, 0
        t0 = time.time()
        with cf.ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(one, range(len(groups))))
        first_trace = None
        for i, bad, r, tp in results:
            if bad is not None and len(self.violations) >= 3:
                rejected += 1
                continue
            lines = open(tp).read().splitlines()
            nev += len(lines)
            if bad is None:
                if first_trace is None:
                    first_trace = tp
                n = sum(1 for x in lines if x.startswith('{"op":"case"') or x.startswith('{"op": "case"'))
                if n != len(groups[i]):
                    raise CheckError("driver of %s recorded %d of %d cases" % (label, n, len(groups[i])))
                self.traces += n
                self.states += r.distinct
                self.transitions += r.generated
                continue
            # locate the case
            upto = lines[:bad]
            ncase = sum(1 for x in upto if '"op":"case"' in x.replace(" ", "")[:20]) - 1
            ncase = max(ncase, 0)
            self.traces += ncase
            case = groups[i][min(ncase, len(groups[i]) - 1)]
            # confirm: run the single case again, twice
            sp, tp2 = self.path("%s-%d-re.script" % (base, i)), self.path("%s-%d-re.trace" % (base, i))
            write_script(sp, [case])
            self.run_driver(binary, sp, tp2, args, min(drv_timeout, 60), env)
            bad2, _ = self.validate_one(module, tp2, tlc_timeout, constants, "%s-%d-re" % (base, i))
            evs = open(tp2).read().splitlines()
            if bad2 is None:  # depends on the preceding cases (state leaking between them) : repeat the whole shard
                sp, tp2 = self.path("%s-%d.script" % (base, i)), self.path("%s-%d-re2.trace" % (base, i))
                self.run_driver(binary, sp, tp2, args, drv_timeout, env)
                bad2, _ = self.validate_one(module, tp2, tlc_timeout, constants, "%s-%d-re2" % (base, i))
                evs = open(tp2).read().splitlines()
                if bad2 is None:   # a schedule that did not come back: the recorded trace is the evidence, unless the machine was just too slow
                    if '"rc": "timeout"' in lines[bad - 1] if bad <= len(lines) else True:
                        raise CheckError("rejection of %s event %d did not repeat" % (tp, bad))
                    bad2, evs = bad, lines
            ev = evs[bad2 - 1] if bad2 <= len(evs) else "<end>"
            k = key(case, ev) if key else None
            if k is not None and k in self.known:
                self.known_hits.append((k, self.known[k]))
                continue
            rejected += 1
            rp = os.path.join(EVID, "replay")
            os.makedirs(rp, exist_ok=True)
            rf = os.path.join(rp, "%s-%d.json" % (self.prop, len(self.violations) + 1))
            with open(rf, "w") as f:
                json.dump({"property": self.prop, "trace_spec": module, "driver": os.path.basename(binary).rsplit("-", 1)[0],
                           "args": list(args), "script": open(sp).read().splitlines(), "rejected_event_no": bad2,
                           "rejected_event": ev[:4000], "trace": evs[:bad2][-400:],
                           "how": "run harness driver on the script, validate its trace with spec/%s.tla" % module}, f, indent=1)
            self.violations.append({"what": "%s: specification %s rejects event %d: %s" % (label, module, bad2, ev[:500]), "replay": rf})
        self.events += nev
        if nev < min_events and not self.violations:
            raise CheckError("%s: only %d events recorded" % (label, nev))
        log("%s: %d cases, %d events validated against %s in %.1fs, %d rejected" % (label or module, len(cases), nev, module, time.time() - t0, rejected))
        if len(self.samples) < 6:
            c = cases[0]
            s = json.dumps(c)
            self.samples.append(s if len(s) < 1500 else s[:1500] + " ...")
        if corrupt and first_trace and not rejected:
            self.binding_selftest(module, first_trace, constants, base)
        return rejected

    def binding_selftest(self, module, trace, constants, base):
        """Corrupt single fields of an accepted trace: the trace specification has to reject the result."""
        lines = [json.loads(x) for x in open(trace)]
        rng = random.Random(self.seed + 17)
        # only corrupt observations (field "r"), in distinct kinds of operations
        kinds = {}
        for n, ev in enumerate(lines):
            if "r" in ev:
                kinds.setdefault(ev["op"], []).append(n)
        rejected = 0

        def kind(item):
            op, idxs = item
            lrng = random.Random("%s/%s" % (self.seed, op))
            for attempt in range(8):
                n = lrng.choice(idxs[:400])
                start = n
                while start > 0 and lines[start].get("op") != "case":
                    start -= 1
                ev = json.loads(json.dumps(lines[n]))
                ev["r"] = mutate(ev["r"], lrng)
                nm = "corrupt-%s-%s-%d" % (base, op, attempt)
                p = self.path(nm + ".trace")
                with open(p, "w") as f:
                    for x in lines[start:n] + [ev]:
                        f.write(json.dumps(x) + "\n")
                try:
                    bad, _ = self.validate_one(module, p, 300, constants, nm, strict=True)
                except CheckError as e:
                    bad = -1  # the corrupted value is not even of the right type
                if bad is not None:
                    return 1
            raise CheckError("binding self-test: %s accepts corrupted %s events, e.g. %s" % (module, op, json.dumps(ev)[:800]))

        # a crash of the driver is an event no specification explains
        nm = "corrupt-%s-crash" % base
        with open(self.path(nm + ".trace"), "w") as f:
            f.write(json.dumps({"op": "case", "n": 0}) + "\n" + json.dumps({"op": "crash", "rc": "1", "err": ""}) + "\n")
        if self.validate_one(module, self.path(nm + ".trace"), 300, constants, nm, strict=True)[0] is None:
            raise CheckError("binding self-test: %s accepts a crash" % module)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            rejected = sum(ex.map(kind, sorted(kinds.items())))
        self.extra["binding_selftest_corruptions_rejected"] = self.extra.get("binding_selftest_corruptions_rejected", 0) + rejected

    # ---------------------------------------------------------------- verdict
    def violation(self, what, replay_obj):
        rp = os.path.join(EVID, "replay")
        os.makedirs(rp, exist_ok=True)
        rf = os.path.join(rp, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(rf, "w") as f:
            json.dump(replay_obj, f, indent=1)
        self.violations.append({"what": what, "replay": rf})

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "trace_events": self.events, "samples": self.samples or ["-"], "models": self.models}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": [v["what"] for v in self.violations]}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, w in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        if not self.violations:
            shutil.rmtree(self.work, ignore_errors=True)
        for v in self.violations:
            print("  " + v["what"][:1000])
            print("VIOLATION property=%s replay=%s" % (self.prop, v["replay"]), flush=True)
        return 1 if self.violations else 0


def brief(err):
    """the informative lines of a sanitizer report or of an exception"""
    ls = [x.strip() for x in err.splitlines()]
    k = [x for x in ls if "ERROR" in x or "runtime error" in x or "what()" in x or "Assertion" in x or "terminate" in x]
    k += [x for x in ls if x.startswith("#") and "/anifem++/" in x][:6]
    return (" | ".join(k) or err[-400:])[:900]


def mutate(v, rng):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    if isinstance(v, str):
        return v + "x"
    if isinstance(v, list):
        if not v:
            return [0]
        i = rng.randrange(len(v))
        return v[:i] + [mutate(v[i], rng)] + v[i + 1:]
    if isinstance(v, dict):
        k = rng.choice(sorted(v))
        d = dict(v)
        d[k] = mutate(v[k], rng)
        return d
    return 0


def tempfile_dir(base, name):
    p = os.path.join(base, name)
    shutil.rmtree(p, ignore_errors=True)
    os.makedirs(p)
    return p


def load_known(prop):
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res
