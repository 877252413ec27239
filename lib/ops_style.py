# encoding: utf-8
"""Markov styles, styles made of patterns and their files (C20 to C22)."""
from __future__ import absolute_import, division, print_function

import hashlib
import os
import random
import sys
import types
from fractions import Fraction

from driver import op, encPattern, ct, scratch, gsstyles, tagIn


def seedOf(i):
    """seeds that are far from one another"""
    return int(hashlib.md5(("seed %d" % i).encode("ascii")).hexdigest()[:12], 16)


def frac(c, p):
    f = Fraction(float(p)).limit_denominator(2000)
    if abs(float(f) - p) > 1e-9:
        c.inx = 1
    return f.numerator, f.denominator


def state(s):
    return sorted(ct(t) for t in s)


def table(c, m):
    r = []
    for t in m.transitionTable:
        row = []
        for past, d in t.items():
            nxt = []
            for e, p in d.items():
                n, q = frac(c, p)
                nxt.append({"st": state(e), "n": n, "d": q})
            row.append({"past": [state(s) for s in past], "nxt": sorted(nxt, key=repr)})
        r.append(sorted(row, key=repr))
    return r


def whole(c, s):
    m = s.markovChain
    return {"table": table(c, m), "order": c.integer(m.order), "n": c.integer(m.numSteps), "loop": c.ticks(m.loopDuration),
            "built": 1 if s.isBuilt() else 0, "bool": 1 if isinstance(s.isBuilt(), bool) else 0}


@op
def op_learn(c, a, L):
    ps = [c.regs[x] for x in a["ps"]]
    pre = [encPattern(c, p) for p in ps]
    name = "style:" + a["s"]
    if name not in c.obj or not a.get("again"):
        c.obj[name] = gsstyles.MarkovStyle(order=a["order"], numSteps=a["n"], loopDuration=c.beats(a["loop"]))
    s = c.obj[name]
    before = 1 if s.isBuilt() else 0
    L.a = {"order": a["order"], "n": a["n"], "loop": a["loop"], "ps": pre}
    arg = list(ps)
    s.generateStyle(arg)
    if a.get("build"):
        s.buildStyle()
    r = whole(c, s)
    r["before"] = before if not a.get("again") else 0
    r["ps"] = [encPattern(c, p) for p in ps]
    r["list"] = 1 if len(arg) == len(ps) and all(x is y for x, y in zip(arg, ps)) else 0
    L.rv = r


class Shown(object):
    """a stand-in for matplotlib.pyplot (and for figures, axes, colours and images) that keeps the matrix and the labels it is given"""

    def __init__(self):
        self.m, self.x, self.y, self.count = [], [], [], 0

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: self

    @property
    def cm(self):
        return self

    @property
    def OrRd(self):
        return self

    def subplots(self, *a, **k):
        return self, self

    def matshow(self, m, *a, **k):
        self.m = [list(r) for r in m]
        return self

    imshow = matshow

    def set_xticklabels(self, l, *a, **k):
        self.x = list(l)

    def set_yticklabels(self, l, *a, **k):
        self.y = list(l)

    def set(self, **k):
        self.x, self.y = list(k.get("xticklabels", self.x)), list(k.get("yticklabels", self.y))

    def set_xticks(self, ticks, labels=None, **k):
        self.x = self.x if labels is None else list(labels)

    def set_yticks(self, ticks, labels=None, **k):
        self.y = self.y if labels is None else list(labels)

    xticks, yticks = set_xticks, set_yticks

    def show(self, *a, **k):
        self.count += 1


def shown(f):
    """the matrix and labels that f shows"""
    r = Shown()
    top = types.ModuleType("matplotlib")
    top.pyplot = r
    saved = dict((k, sys.modules.get(k)) for k in ("matplotlib", "matplotlib.pyplot"))
    sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = top, r
    try:
        f()
    finally:
        for k, v in saved.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
    return r


MICRO = 10 ** 6


def encShown(c, r):
    return {"mi": [[state(x) for x in p] for p in r.y], "mo": [state(x) for x in r.x], "n": r.count,
            "mat": [[int(round(x * MICRO)) for x in y] for y in r.m]}


@op
def op_styleQueries(c, a, L):
    """the states and matrices of each step, by whatever number the step is asked for"""
    s = c.obj["style:" + a["s"]]
    m = s.markovChain
    n = m.numSteps
    before = table(c, m)
    rows = []
    for i in range(n):
        j = i + a["shift"][i % len(a["shift"])] * n
        if j >= n:
            k = i                  # matrices are for the steps of the loop, or counted from its end
        else:
            k = j
        mat, ins, outs = m.getMatrixAtStep(k)
        rows.append({"ins": [[state(x) for x in p] for p in m.getPossibleInStatesAtStep(j)],
                     "outs": [state(x) for x in m.getPossibleOutStatesAtStep(j)],
                     "both": len(m.getAllPossibleStatesAtStep(j)),
                     "mi": [[state(x) for x in p] for p in ins], "mo": [state(x) for x in outs],
                     "mat": [[dict(zip("nd", frac(c, x))) for x in y] for y in mat]})
    L.a = {"n": n, "show": a.get("show", 0)}
    plots = []
    if a.get("show"):
        for i in range(n):
            j = i + min(0, a["shift"][i % len(a["shift"])]) * n
            plots.append(encShown(c, shown(lambda: m.plotMatrixAtStep(max(-n, j)))))
        plots.append(encShown(c, shown(m.plotGlobalMatrix)))
    al = m.getAllPossibleStates()
    text = repr(m)
    L.rv = {"table": before, "after": table(c, m), "rows": rows, "all": len(al), "text": text.count("step "),
            "built": 1 if s.isBuilt() else 0, "plots": plots}


def history(c, p, n, loop):
    """the states of a generated pattern, and whether its events are where they must be"""
    step = loop / n
    states = [[] for _ in range(n)]
    ok = True
    for e in p.events:
        i = int(round(e.startTime / step))
        ok = ok and abs(e.startTime - i * step) < 1e-9 and abs(e.duration - step) < 1e-9 and 0 <= i < n
        if 0 <= i < n:
            states[i].append(ct(e.tag))
    ok = ok and abs(p.duration - loop) < 1e-9
    ok = ok and all(len(set(s)) == len(s) for s in states)
    return [sorted(s) or ["s:silence"] for s in states], ok


@op
def op_generate(c, a, L):
    s = c.obj["style:" + a["s"]]
    m = s.markovChain
    before = whole(c, s)
    counts = {}
    ok = same = True
    loop = float(m.loopDuration)
    for i in range(a["runs"]):
        seed = seedOf(a["seed"] + i)
        p = s.generatePattern(seed=seed)
        h, good = history(c, p, m.numSteps, loop)
        ok = ok and good
        k = repr(h)
        counts.setdefault(k, [h, 0])[1] += 1
        if i % 10 == 0:
            random.random()
            q = s.generatePattern(seed)
            g = history(c, q, m.numSteps, loop)[0]
            same = same and g == h and q == p and q is not p
    for seed in (0, 1, -1, 0.0, 2.5, False, "", "seed"):
        first = None
        for i in range(6):
            random.seed(i)
            q = s.generatePattern(seed)
            h, good = history(c, q, m.numSteps, loop)
            ok = ok and good
            first = h if first is None else first
            same = same and h == first
            counts.setdefault(repr(h), [h, 0])
    p = s.generatePattern()
    h, good = history(c, p, m.numSteps, loop)
    ok = ok and good
    counts.setdefault(repr(h), [h, 0])
    L.a = {"runs": a["runs"]}
    L.rv = {"before": before, "after": whole(c, s), "ok": 1 if ok else 0, "same": 1 if same else 0,
            "hist": [{"h": x[0], "c": x[1]} for x in sorted(counts.values(), key=repr)]}


@op
def op_saveStyle(c, a, L):
    s = c.obj["style:" + a["s"]]
    before = whole(c, s)
    t = c.obj.get("style:" + a["t"]) if a.get("t") else None
    known = 1 if t is not None else 0
    if t is None:
        t = gsstyles.MarkovStyle()
    fresh = 1 if t.isBuilt() else 0
    path = os.path.join(scratch("style"), "s." + a["how"])
    if a["how"] == "json":
        s.saveToJSON(path)
        t.loadFromJSON(path)
    else:
        s.saveToPickle(path)
        t.loadFromPickle(path)
    os.remove(path)
    if a.get("t"):
        c.obj["style:" + a["t"]] = t
    apart = t.markovChain is not s.markovChain and t.markovChain.transitionTable is not s.markovChain.transitionTable
    L.a = {"known": known}
    L.rv = {"before": before, "after": whole(c, s), "loaded": whole(c, t), "fresh": fresh, "apart": 1 if apart else 0}


@op
def op_unlearnt(c, a, L):
    """styles that were given nothing"""
    c.obj["style:" + a["s"]] = s = gsstyles.MarkovStyle(order=a["order"], numSteps=a["n"], loopDuration=c.beats(a["loop"]))
    if a.get("empty"):
        s.generateStyle([])
    L.rv = {"built": 1 if s.isBuilt() else 0}


# ------------------------------------------------------ styles made of patterns

@op
def op_dbStyle(c, a, L):
    ps = [c.regs[x] for x in a["ps"]]
    name = "db:" + a["s"]
    s = gsstyles.DatabaseStyle(generatePatternOrdering=a["how"]) if a["how"] else gsstyles.DatabaseStyle()
    c.obj[name] = s
    before = 1 if s.isBuilt() else 0
    s.generateStyle(list(ps))
    L.a = {"ps": [encPattern(c, p) for p in ps]}
    L.rv = {"before": before, "built": 1 if s.isBuilt() else 0}


def position(l, x):
    for i, y in enumerate(l):
        if y is x:
            return i + 1
    return 0


@op
def op_dbGenerate(c, a, L):
    s = c.obj["db:" + a["s"]]
    n = len(s.patternList)
    pre = [encPattern(c, p) for p in s.patternList]
    how = s.generatePatternOrdering
    random.seed(seedOf(a["seed"]))
    idx, got = [], []
    count = n - s.currentIdx if how == "increasing" else 40 * n if how == "random" else 3
    if a.get("few"):
        count = min(count, a["few"])
    for k in range(count if n else 0):
        if how == "indexed" and "idx" in a:
            s.currentIdx = a["idx"][k % len(a["idx"])] % n
        idx.append(s.currentIdx)
        got.append(position(s.patternList, s.generatePattern()))
    same = 1
    if how == "random" and n:
        for seed in (0, 1, 7, -2, "seed", a["seed"]):
            first = position(s.patternList, s.generatePattern(seed))
            for i in range(5):
                random.seed(i)
                same = same if position(s.patternList, s.generatePattern(seed=seed)) == first else 0
    L.a = {"how": how, "n": n}
    L.rv = {"same": same, "got": got, "idx": idx, "pre": pre, "post": [encPattern(c, p) for p in s.patternList]}


@op
def op_dbSave(c, a, L):
    s = c.obj["db:" + a["s"]]
    t = c.obj.get("db:" + a["t"]) if a.get("into") else None
    known = 1 if t is not None else 0
    if t is None:
        t = gsstyles.DatabaseStyle()
    pre = [encPattern(c, p, True) for p in s.patternList]
    fresh = 1 if t.isBuilt() else 0
    path = os.path.join(scratch("style"), "d." + a["how"])
    if a["how"] == "json":
        s.saveToJSON(path)
        t.loadFromJSON(path)
    else:
        s.saveToPickle(path)
        t.loadFromPickle(path)
    os.remove(path)
    c.obj["db:" + a["t"]] = t
    L.a = {"how": a["how"], "known": known}
    L.rv = {"pre": pre, "post": [encPattern(c, p, True) for p in s.patternList], "got": [encPattern(c, p, True) for p in t.patternList],
            "fresh": fresh, "built": 1 if t.isBuilt() else 0, "sameHow": 1 if t.generatePatternOrdering == s.generatePatternOrdering else 0,
            "sameIdx": 1 if t.currentIdx == s.currentIdx else 0}
