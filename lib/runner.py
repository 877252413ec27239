"""Runs one check: models, histories, execution on the real code, trace validation.

See DESIGN.md. Exit 0: the property held on everything explored; 1: violation;
2: the machinery itself failed.
"""
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVIDENCE = os.environ.get("VF_EVIDENCE", os.path.join(VERIF, "evidence"))
CPYTHON = "/opt/venv/bin/python"
STALL = 150          # seconds without progress of a driver: it hangs
NOT_PORTABLE = {"raised NameError", "raised SyntaxError", "raised ImportError", "raised AttributeError",
                "raised UnboundLocalError", "raised ModuleNotFoundError"}


class Broken(Exception):
    """the machinery failed"""


def say(*x):
    print(*x)
    sys.stdout.flush()


# ------------------------------------------------------------------ TLC

def tla(value):
    """Python value -> text of a TLA+ constant for a cfg file"""
    if isinstance(value, bool):
        return "TRUE" if value else "FALSE"
    if isinstance(value, (set, frozenset)):
        return "{" + ", ".join(tla(v) for v in sorted(value, key=str)) + "}"
    if isinstance(value, str):
        return '"' + value + '"'
    return str(value)


def tlc(work, module, cfg, args=(), env=None, timeout=800, heap="6g"):
    """starts TLC on a module of the specification in its own folder"""
    d = tempfile.mkdtemp(prefix="tlc-", dir=work)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfg)
    e = dict(os.environ, **(env or {}))
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m" % heap
    out = open(os.path.join(d, "out"), "w")
    p = subprocess.Popen(["timeout", str(timeout), "tlc", "-metadir", os.path.join(d, "md"), "-config",
                          os.path.join(d, "run.cfg")] + list(args) + [module + ".tla"],
                         cwd=d, stdout=out, stderr=subprocess.STDOUT, env=e, preexec_fn=os.setsid)
    p.dir = d
    return p


def tlc_wait(p):
    p.wait()
    with open(os.path.join(p.dir, "out"), errors="replace") as f:
        text = f.read()
    shutil.rmtree(p.dir, ignore_errors=True)
    return text


def tlc_counts(text):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    if not m:
        m = re.findall(r"The number of states generated: ([\d,]+)", text)
        m = [(x, x) for x in m]
    if not m:
        return 0, 0
    return tuple(int(x.replace(",", "")) for x in m[-1])


class Model(object):
    """A model to explore with TLC. convert: printed test -> programs."""
    def __init__(self, module, consts, invariants=(), properties=(), constraints=(), action_constraints=(),
                 convert=None, name=None, simulate=None, view=None, overrides=None, limit=None, postcondition=None,
                 spec="Spec"):
        self.__dict__.update(locals())
        self.name = name or module

    def cfg(self):
        r = ["SPECIFICATION " + self.spec, "CHECK_DEADLOCK FALSE"]
        for k, v in (("INVARIANT", self.invariants), ("PROPERTY", self.properties), ("CONSTRAINT", self.constraints),
                     ("ACTION_CONSTRAINT", self.action_constraints)):
            r += ["%s %s" % (k, x) for x in v]
        if self.view:
            r.append("VIEW " + self.view)
        if self.postcondition:
            r.append("POSTCONDITION " + self.postcondition)
        r.append("CONSTANTS")
        r += [" %s = %s" % (k, tla(v)) for k, v in self.consts.items()]
        r += [" %s <- %s" % (k, v) for k, v in (self.overrides or {}).items()]
        return "\n".join(r) + "\n"

    def start(self, work, seed):
        args = ["-workers", "1" if self.simulate else "4"]
        if self.simulate:
            args += ["-simulate", "num=%d" % self.simulate[0], "-depth", str(self.simulate[1]), "-seed", str(seed)]
        self.p = tlc(work, self.module, self.cfg(), args)

    def finish(self):
        text = tlc_wait(self.p)
        ok = "No error has been found" in text or (self.simulate and "Error" not in text)
        if not ok:
            raise Broken("model %s: the specification does not have its own properties\n%s" % (self.name, text[-6000:]))
        self.generated, self.distinct = tlc_counts(text)
        # sorted: TLC's workers print them in any order
        tests = self.tests = [json.loads(json.loads(x)[4:]) for x in
                              sorted({x for x in text.splitlines() if x.startswith('"TEST')})]
        if not self.generated:
            raise Broken("model %s explored nothing\n%s" % (self.name, text[-2000:]))
        return tests


# -------------------------------------------------------------- execution

class Runs(object):
    """the driver over chunks of programs, on one interpreter"""
    def __init__(self, work, eng, programs, modules, chunks):
        self.eng, self.procs, self.by_id = eng, [], {p["id"]: p for p in programs}
        chunks = max(1, min(chunks, (len(programs) + 19) // 20))
        for i in range(chunks):
            part = programs[i::chunks]
            d = tempfile.mkdtemp(prefix=eng + "-", dir=work)
            with open(os.path.join(d, "programs"), "w") as f:
                for p in part:
                    f.write(json.dumps(p) + "\n")
            self.spawn(d, modules, 0)

    def spawn(self, d, modules, n):
        out = os.path.join(d, "out%d" % n)
        progs = os.path.join(d, "programs" if n == 0 else "programs%d" % n)
        env = dict(os.environ, VF_MODULES=" ".join(modules), PYTHONHASHSEED="0", LC_ALL="C.UTF-8",
                   PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        driver = os.path.join(VERIF, "lib", "driver.py")
        if self.eng == "py2":
            cmd = ["jython", "-B", driver]
            env["JAVA_TOOL_OPTIONS"] = "-Xmx1500m -Xss16m -XX:+UseSerialGC -XX:TieredStopAtLevel=1"
            lim = None
        else:
            cmd = [CPYTHON, "-B", "-W", "ignore", driver]

            def lim():
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

        def pre():
            os.setsid()
            if lim:
                lim()
        err = open(out + ".err", "w")
        p = subprocess.Popen(cmd + [progs, out, REPO], cwd=d, stdout=err, stderr=subprocess.STDOUT, env=env,
                             preexec_fn=pre)
        p.d, p.out, p.n, p.modules, p.last, p.size = d, out, n, modules, time.time(), -1
        self.procs.append(p)

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()

    def poll(self):
        """still running?"""
        busy = False
        for p in list(self.procs):
            if getattr(p, "done", False):
                continue
            rc = p.poll()
            if rc is None:
                busy = True
                size = os.path.getsize(p.out + ".cur") if os.path.exists(p.out + ".cur") else -1
                if size != p.size:
                    p.size, p.last = size, time.time()
                elif time.time() - p.last > STALL:
                    self.kill(p)
                    self.failed(p, "Hangs")
            else:
                p.done = True
                if rc != 0:
                    self.failed(p, "Crash")
        return busy

    extra = None

    def failed(self, p, what):
        """the program under way hangs or ends the interpreter"""
        p.done = True
        cur = []
        if os.path.exists(p.out + ".cur"):
            with open(p.out + ".cur") as f:
                cur = f.read().split("\n")[:-1]
        if not cur:
            with open(p.out + ".err", errors="replace") as f:
                text = f.read()[-3000:]
            self.startup = text
            cur = [json.loads(open(os.path.join(p.d, "programs")).readline())["id"]]
            what = "CannotStart"
            sys.stderr.write(text + "\n")
        prog = self.by_id[cur[-1]]
        nil = {"nil": 1, "ev": [], "ids": [], "dur": 0, "st": 0, "m": "", "x": "", "nm": "", "vp": []}
        self.extra = (self.extra or []) + [json.dumps(
            {"id": prog["id"], "k": -1, "op": prog["steps"][-1][0], "u": 0, "a": {"_": 0}, "pre": nil, "post": nil,
             "rp": [], "rv": {"_": 0}, "exc": what, "inx": 0, "oth": []}, sort_keys=True)]

    def lines(self):
        for p in self.procs:
            if os.path.exists(p.out):
                with open(p.out) as f:
                    for line in f:
                        if line.endswith("\n"):
                            yield line.rstrip("\n")
        for line in self.extra or []:
            yield line

    def stop(self):
        for p in self.procs:
            if p.poll() is None:
                self.kill(p)


TRACE_CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Complete\n"


UNREADABLE = re.compile(r"The error occurred when TLC was evaluating|Error: Evaluating|Attempted to|TLC threw an unexpected exception")


def validate(work, lines, parts=2):
    """checks lines with TLC: index -> failed clauses"""
    if not lines:
        return {}, (0, 0)
    per = max(1, min((len(lines) + parts - 1) // parts, 12000))
    jobs, failed, total = [], {}, [0, 0]

    def start(path):
        return tlc(work, "Trace", TRACE_CFG, ["-workers", "4"], {"TRACE": path})

    def collect(p, base, path):
        text = tlc_wait(p)
        # what was observed may be of another shape than any result (text where there should be a number):
        # TLC then fails while it evaluates the verdict; that line is a violation, and the others are checked again
        for _ in range(4):
            at = re.findall(r"(?m)^/\\ l = (\d+)$", text)
            if "No error has been found" in text or not at or not UNREADABLE.search(text) or "OutOfMemory" in text or "StackOverflow" in text:
                break
            with open(path) as f:
                part = f.read().splitlines()
            part[int(at[-1]) - 1] = '{"exc": "", "inx": 0, "op": "unreadable"}'
            with open(path, "w") as f:
                f.write("\n".join(part) + "\n")
            text = tlc_wait(start(path))
        if "No error has been found" not in text and '"FAILED' not in text:
            raise Broken("trace validation failed to run\n" + text[-6000:])
        g, d = tlc_counts(text)
        total[0] += g
        total[1] += d
        for x in text.splitlines():
            if x.startswith('"FAILED'):
                r = json.loads(json.loads(x)[6:])
                failed[base + r["l"] - 1] = sorted(r["bad"])
    for base in range(0, len(lines), per):
        part = lines[base:base + per]
        path = os.path.join(work, "trace%d" % base)
        with open(path, "w") as f:
            f.write("\n".join(part) + "\n")
        if len(jobs) >= parts:
            collect(*jobs.pop(0))
        jobs.append((start(path), base, path))
    for j in jobs:
        collect(*j)
    return failed, tuple(total)


# ----------------------------------------------------------------- checks

def known(prop):
    """signatures of the known findings of a property"""
    r = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    r[m.group(2)] = m.group(3)
    return r


def signature(line, bad):
    key = {k: line[k] for k in ("op", "a", "pre")}
    return hashlib.sha1((json.dumps(key, sort_keys=True) + json.dumps(bad)).encode()).hexdigest()[:16]


def execute(work, programs, engines, modules):
    """runs the programs: ({line: [engines]}, counts)"""
    runs = [Runs(work, e, programs, modules, {1: 8, 2: 5 if e == "py2" else 3}[len(engines)]) for e in engines]
    try:
        while any([r.poll() for r in runs]):
            time.sleep(0.05)
    finally:
        for r in runs:
            r.stop()
    seen = {}
    for r in runs:
        for line in r.lines():
            seen.setdefault(line, []).append(r.eng)
    return seen


def check(prop, spec, tier, seed, only=None):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    try:
        return _check(prop, spec, tier, seed, work, t0, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _check(prop, spec, tier, seed, work, t0, only):
    models = spec["models"](tier) if only is None else []
    for m in models:
        m.start(work, seed)
    rng = random.Random("%s/%d/%s" % (prop, seed, tier))
    programs = []
    if only is None:
        for g, quick, thorough in spec["gens"]:
            for i in range(quick if tier == "quick" else thorough):
                p = g(rng, i)
                p["id"] = "%s-%s-%d" % (prop, g.__name__, i)
                p.setdefault("seed", rng.randrange(1 << 30))
                programs.append(p)
        for m in models:
            tests = m.finish()
            if m.convert:
                k = 0
                if m.limit and len(tests) > m.limit[tier]:
                    tests = rng.sample(tests, m.limit[tier])
                for t in tests:
                    for p in m.convert(t, rng):
                        p["id"] = "%s-%s-t%d" % (prop, m.name, k)
                        p.setdefault("seed", k)
                        programs.append(p)
                        k += 1
                if not k:
                    raise Broken("model %s gave no tests" % m.name)
    else:
        programs = only
    t1 = time.time()
    engines = spec.get("engines", ["py2", "py3"])
    modules = spec.get("modules", [])
    seen = execute(work, programs, engines, modules)
    t2 = time.time()
    lines = sorted(seen)
    # what a step is judged on does not depend on the program it comes from
    short, where = {}, []
    for x in lines:
        y = x if spec.get("whole") else re.sub(r'"id": "[^"]*", ("inx": \d, )"k": -?\d+, ("op": )', r"\1\2", x)
        short.setdefault(y, []).append(x)
    uniq = sorted(short)
    failed, tstates = validate(work, uniq)
    t3 = time.time()
    by_id = {p["id"]: p for p in programs}
    # --- vacuity: each operation of the check was exercised, successfully
    ops = {}
    for x in uniq:
        m = re.search(r'"exc": "", .*"op": "(\w+)"', x)
        if m:
            ops[m.group(1)] = ops.get(m.group(1), 0) + 1
    # --- failures
    violations, notes, knowns, elsewhere = [], 0, {}, 0
    kf = known(prop)
    for i, bad in sorted(failed.items()):
        full = short[uniq[i]]
        line = json.loads(full[0])
        es = sorted({e for x in full for e in seen[x]})
        if engines == ["py2", "py3"] and es == ["py3"] and set(bad) <= NOT_PORTABLE:
            notes += 1   # not available on Python 3: portability is not one of the properties
            continue
        if spec.get("clauses"):
            bad = [b for b in bad if b in spec["clauses"]]
            if not bad:
                elsewhere += 1   # not what this property is about: another check's
                continue
        sig = signature(line, bad)
        if sig in kf:
            knowns[sig] = kf[sig]
            continue
        violations.append({"clauses": bad, "engines": es, "signature": sig, "program": by_id.get(line["id"]),
                           "step": line})
    violations.sort(key=lambda v: len(json.dumps(v)))
    for sig, text in sorted(knowns.items()):
        say("KNOWN-FINDING: property=%s %s" % (prop, text))
    if only is None and not violations and not elsewhere:
        missing = [o for o in spec["ops"] if not ops.get(o)]
        if missing:
            raise Broken("never exercised: %s" % ", ".join(missing))
    rc = 0
    if violations:
        rc = 1
        d = EVIDENCE
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.replay.json" % prop)
        groups, keep = {}, []
        for v in violations:
            k = (v["step"]["op"], ", ".join(v["clauses"]))
            n = groups.setdefault(k, [0, v])
            n[0] += 1
            if n[0] <= 4 and len(keep) < 60:
                keep.append(v)
        if only is None:
            with open(path, "w") as f:
                json.dump({"property": prop, "how": "bin/replay " + path, "violations": keep,
                           "number": len(violations)}, f, indent=1)
        for (o, c), (n, v) in sorted(groups.items(), key=lambda x: -x[1][0])[:10]:
            say("  %d x %s: %s  (e.g. program %s on %s)" % (n, o, c, v["step"]["id"], "/".join(v["engines"])))
        say("VIOLATION property=%s replay=%s" % (prop, path))
    if only is None:
        write_evidence(prop, spec, tier, seed, models, programs, seen, uniq, ops, tstates, violations, notes,
                       time.time() - t0, engines)
        say("%s %s seed=%d: %d programs, %d steps logged, %d distinct steps checked, %d model states, %d violations"
            " (%.1f s: prepare %.1f, run %.1f, validate %.1f)" % (
                prop, tier, seed, len(programs), sum(len(e) for e in seen.values()), len(uniq),
                sum(m.distinct for m in models), len(violations), time.time() - t0, t1 - t0, t2 - t1, t3 - t2))
    return rc


def write_evidence(prop, spec, tier, seed, models, programs, seen, uniq, ops, tstates, violations, notes, wall, engines):
    rng = random.Random(seed)
    sample = [json.loads(uniq[rng.randrange(len(uniq))]) for _ in range(2)] if uniq else []
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": sum(m.distinct for m in models) + tstates[1],
              "transitions": sum(m.generated for m in models) + tstates[0],
              "traces_validated_against_impl": len(programs) * len(engines),
              "samples": sample + [p for p in programs[:1]],
              "models": [{"name": m.name, "module": m.module, "distinct_states": m.distinct,
                          "states_generated": m.generated, "tests_printed": len(m.tests),
                          "mode": "simulation" if m.simulate else "exhaustive within the constants",
                          "constants": {k: tla(v) for k, v in m.consts.items()}} for m in models],
              "steps_recorded": sum(len(e) for e in seen.values()),
              "distinct_steps_checked": len(uniq),
              "distinct_steps_by_operation": ops,
              "interpreters": {"py2": "Jython 2.7", "py3": "CPython 3.12"} if len(engines) == 2 else {"py3": "CPython 3.12"},
              "steps_not_available_on_python_3": notes},
          "assumptions": spec.get("assumptions", []) + [
              "the driver reads the abstract state of the objects it logs through their public attributes"],
          "wall_s": round(wall, 2), "violations": len(violations)}
    d = EVIDENCE
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main(argv):
    import props
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        return check(prop, props.PROPS[prop], tier, seed)
    except Broken as e:
        say("BROKEN CHECK %s: %s" % (prop, e))
        return 2


def replay(argv):
    import props
    with open(argv[1]) as f:
        r = json.load(f)
    programs = {v["program"]["id"]: v["program"] for v in r["violations"] if v["program"]}
    return check(r["property"], props.PROPS[r["property"]], "quick", 1, list(programs.values()))
