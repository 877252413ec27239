"""Seeded generators of histories of operations on patterns.

A program is {"u": units per beat, "steps": [[operation, arguments], ...]}; times are
integers in units. The values are chosen to be awkward: onsets and ends that touch or
nest, unordered lists, duplicates, steps that are not binary fractions, tuple tags, tags
that contain one another, lengths that matter only beyond the usual ones.
"""
import random  # noqa

PLAIN = ["Kick", "Snare", "Hat"]
SUBSTR = ["a", "ab", "abc", "b", "bc"]
TUPLES = ["a", "b", ["a", "b"], ["b", "a"], ["a"], ["b", "c"], "ab", ["ab", "c"]]
INTS = [1, 2, [1, 2], [2, 1], "1", [1], 11]
MIXED = ["a", ["a", "b"], 1, "silence", "", ["a", 1], ["silence", "b"]]
LETTERS = ["Kick", "k", "C", ["C", "maj"], ["G", "min"], "silence"]
LONG = [["a", "b", "c"], "c", ["c", "d", "e", "a"], "b", ["x", "y", "z", "w", "c"], "w", ["a", "a", "d"], "e"]
EMPTY = [[], "a", ["a"], "", ["a", "b"]]
UNICODE = [u"\u00e9", u"e\u0301", u"\u65e5\u672c", [u"\u00e9", "a"], "a", u"\u00df", "ss"]
FAMILIES = [PLAIN, SUBSTR, TUPLES, INTS, MIXED, LETTERS, LONG, EMPTY]


class Space(object):
    """a choice of grids, ranges and tags from which values are drawn"""
    def __init__(self, rng, dyadic=None, tags=None, big=True, grid=None):
        self.r = rng
        x = rng.random()
        if dyadic is None:
            dyadic = rng.random() < 0.6
        # (units per beat, grid in units)
        self.u, self.g = rng.choice([(1, 1), (2, 1), (4, 1), (4, 2), (16, 1), (16, 4), (64, 1)] if dyadic else
                                    [(3, 1), (6, 1), (12, 1), (24, 1), (5, 1), (10, 1), (7, 1), (100, 1), (48, 3)])
        if grid:
            self.u, self.g = grid
        self.dyadic = dyadic
        # horizon in grid points
        self.h = rng.choice([4, 6, 8, 12, 16]) if x < 0.8 or not big else rng.choice([30, 100, 1000])
        self.maxd = rng.choice([2, 3, 4, max(2, self.h // 2), self.h])
        self.nev = rng.choice([0, 1, 2, 2, 3, 3, 4, 4, 5, 6, 8]) if rng.random() < 0.9 or not big else rng.choice([15, 25, 40])
        fam = tags or rng.choice(FAMILIES)
        self.tags = rng.sample(fam, min(len(fam), rng.choice([1, 2, 2, 3, 3, 4, 6])))
        self.pitches = rng.sample([0, 1, 36, 38, 42, 48, 59, 60, 61, 62, 67, 72, 84, 127], rng.choice([1, 2, 3, 4]))
        self.vels = rng.sample([0, 1, 64, 80, 100, 127], rng.choice([1, 2, 3]))
        self.order = rng.choice(["sorted", "shuffled", "shuffled", "reversed"])
        self.tie = rng.random() < 0.3       # pitch and tag go together
        self.zero = 0                       # how often an event lasts no time

    def t(self):
        return self.r.randrange(0, self.h) * self.g

    def d(self):
        return self.r.randint(1, self.maxd) * self.g

    def tag(self):
        return self.r.choice(self.tags)

    def ev(self):
        i = self.r.randrange(len(self.tags))
        p = self.pitches[i % len(self.pitches)] if self.tie else self.r.choice(self.pitches)
        d = 0 if self.zero and self.r.random() < self.zero else self.d()
        return [self.t(), d, p, self.r.choice(self.vels), self.tags[i]]

    def evs(self, n=None):
        r = [self.ev() for _ in range(self.nev if n is None else n)]
        if len(r) > 1 and self.r.random() < 0.3:       # duplicates and near duplicates
            e = list(self.r.choice(r))
            for k in range(self.r.choice([1, 1, 2, 3])):
                f = list(e)
                if self.r.random() < 0.5:
                    k = self.r.randrange(5)
                    f[k] = self.ev()[k]
                r.append(f)
                if self.r.random() < 0.5:
                    r.append(list(e))
        if len(r) > 1 and self.r.random() < 0.3:       # chains of touching events
            t = self.t()
            for e in self.r.sample(r, min(len(r), 4)):
                e[0] = t
                t += e[1]
        if self.order == "shuffled":
            self.r.shuffle(r)
        else:
            r.sort(key=lambda e: e[0], reverse=self.order == "reversed")
        return r

    def new(self, p="A", cover=True, evs=None, **kw):
        ev = self.evs() if evs is None else evs
        end = max([e[0] + e[1] for e in ev] + [0])
        if cover:
            dur = end + self.r.choice([0, 0, 1, 2, self.h // 2]) * self.g
            if not dur:
                dur = self.g * self.r.choice([0, 1, 4])
        else:
            dur = self.r.choice([0, end, end + self.g, self.r.randint(0, self.h) * self.g])
        a = {"p": p, "dur": dur, "ev": ev}
        if self.r.random() < 0.4:
            a["bpm"] = self.r.choice([60, 90, 120.5, 174])
            a["ts"] = self.r.choice([[3, 4], [6, 8], [4, 4], [7, 8], [2, 2]])
            a["name"] = self.r.choice(["Riff", "x", "", None])
            a["key"] = self.r.choice([None, "C", "Am"])
            if self.r.random() < 0.5:
                a["res"] = self.r.choice([96, 480, 960])
            if self.r.random() < 0.3:
                a["fp"] = "/some/file.mid"
            if self.r.random() < 0.3:
                a["st"] = self.r.choice([1, 2, 4]) * self.g
        a.update(kw)
        return ["new", a]

    def prog(self, steps, **kw):
        return dict({"u": self.u, "steps": steps, "ints": self.r.random() < 0.25}, **kw)


def events(step):
    return step[1]["ev"]


def step_size(s, small=False):
    """a length in units: on the grid, off the grid, dividing it or not"""
    k = s.r.choice([1, 1, 2, 3, 4, 5, 8] if not small else [1, 2, 3, 4])
    return k * s.g


def prep(s, n=None):
    """edits that keep a pattern covered by its duration and its events positive"""
    r = []
    for _ in range(s.r.choice([0, 0, 0, 1, 2]) if n is None else n):
        x = s.r.randrange(6)
        if x == 0:
            r.append(["addEvent", {"p": "A", "e": s.ev()}])
        elif x == 1:
            r.append(["reorder", {"p": "A"}])
        elif x == 2:
            r.append(["transpose", {"p": "A", "n": s.r.choice([-1, 1, 12])}])
        elif x == 3:
            r.append(["delEvent", {"p": "A", "i": s.r.randrange(9)}])
        elif x == 4:
            r.append(["stretch", {"p": "A", "num": s.r.choice([2, 3]) if s.dyadic else 2, "den": 1}])
        else:
            r.append(["lastNoteOff", {"p": "A"}])
    return r


# ------------------------------------------------------------------- C01

def insertions(rng, i):
    s = Space(rng)
    steps = [s.new(cover=rng.random() < 0.5)]
    for _ in range(rng.choice([1, 2, 4, 8])):
        x = rng.random()
        if x < 0.5:
            steps.append(["addEvent", {"p": "A", "e": s.ev()}])
        elif x < 0.65:
            steps.append(["lastNoteOff", {"p": "A"}])
        elif x < 0.8:
            steps.append(["durToLast", {"p": "A", "only": rng.randrange(2)}])
        elif x < 0.9 and s.u:
            steps.append(["durToBar", {"p": "A"}])
        elif x < 0.95:
            steps.append(["setDur", {"p": "A", "x": rng.randint(0, 2 * s.h) * s.g}])
        else:
            steps.append(["delEvent", {"p": "A", "i": rng.randrange(9)}])
    return s.prog(steps, new=True)


def bars(rng, i):
    """durations near whole bars, every numerator"""
    n = rng.randint(1, 17)
    u = rng.choice([1, 2, 4, 16, 100, 960, 3, 10])
    k = rng.choice([0, 1, 2, 3, 7, 50])
    dur = max(0, k * n * u + rng.choice([-1, 0, 1, -u, u, rng.randint(-u, u)]))
    ev = [] if rng.random() < 0.3 or dur < 2 else [[0, rng.randint(1, dur), 60, 80, "a"]]
    return {"u": u, "ints": rng.random() < 0.5,
            "steps": [["new", {"p": "A", "dur": dur, "ev": ev, "ts": [n, rng.choice([2, 4, 8, 16])]}],
                      ["durToBar", {"p": "A"}], ["durToBar", {"p": "A"}]]}


# ------------------------------------------------------------------- C02

def splits(rng, i):
    s = Space(rng)
    steps = [s.new()] + prep(s)
    for _ in range(rng.choice([1, 2])):
        ln = step_size(s) if rng.random() < 0.8 else rng.randint(1, s.h) * s.g
        if s.h > 50:
            ln = max(ln, s.h * s.g // rng.randint(3, 60) or s.g)
        steps.append(["split", {"p": "A", "len": ln, "copy": 1 if rng.random() < 0.7 else 0, "sup": rng.randrange(2)}])
        if not steps[-1][1]["copy"]:
            break      # the pattern is left in pieces
    return s.prog(steps)


def longSplits(rng, i):
    """one event over very many windows, lengths that are not binary fractions"""
    u = rng.choice([3, 5, 7, 10, 12, 100, 1000])
    ln = rng.randint(1, 2 * u)
    n = rng.randint(20, 120)
    ev = [[rng.randint(0, 3 * ln), rng.randint(1, n) * ln + rng.choice([0, 0, 1]), 60 + k, 80, rng.choice("ab")]
          for k in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.5:
        ev.append([rng.randint(0, n) * ln, ln, 50, 90, "c"])
    dur = max(e[0] + e[1] for e in ev) + rng.choice([0, 1, ln, 5 * ln])
    return {"u": u, "steps": [["new", {"p": "A", "dur": dur, "ev": ev}],
                              ["split", {"p": "A", "len": ln, "copy": 1, "sup": rng.randrange(2)}]]}


# ------------------------------------------------------------------- C03

def windows(rng, i):
    s = Space(rng, dyadic=True)
    new = s.new(cover=rng.random() < 0.8)
    steps = [new] + prep(s, rng.choice([0, 0, 1]))
    steps = [x for x in steps if x[0] != "stretch"]
    edges = [0] + [e[0] for e in events(new)] + [e[0] + e[1] for e in events(new)] + [new[1]["dur"]]

    def at():
        t = rng.choice(edges) + rng.choice([0, 0, 0, -s.g, s.g])
        return max(0, t)
    for _ in range(rng.choice([2, 4, 6])):
        x = rng.random()
        if x < 0.4:
            f, to = at(), at()
            steps.append(["window", {"p": "A", "s": f, "len": to - f if to > f else s.d(), "trim": rng.randrange(2)}])
        elif x < 0.6:
            steps.append(["activeAt", {"p": "A", "t": at()}])
        elif x < 0.8:
            steps.append(["startingAt", {"p": "A", "t": at(), "tol": rng.choice([0, 0, s.g, 2 * s.g, 5 * s.g])}])
        else:
            steps.append(["contains", {"p": "A", "t": at()}])
    return s.prog(steps)


# ------------------------------------------------------------------- C04

def overlaps(rng, i):
    s = Space(rng)
    if rng.random() < 0.5:
        s.h = min(s.h, 8)
        s.nev = max(s.nev, 4)
    steps = [s.new()] + prep(s)
    pitch = rng.randrange(2)
    steps.append(["removeOverlapped", {"p": "A", "pitch": pitch}])
    if rng.random() < 0.6:
        if rng.random() < 0.4:
            steps.append(["addEvent", {"p": "A", "e": s.ev()}])
        steps.append(["removeOverlapped", {"p": "A", "pitch": pitch if rng.random() < 0.6 else 1 - pitch}])
    return s.prog(steps)


# ------------------------------------------------------------------- C05

def silences(rng, i):
    s = Space(rng)
    steps = [s.new()] + prep(s)
    for _ in range(rng.choice([1, 1, 2])):
        a = {"p": "A", "max": rng.choice([0, 0, s.g, 2 * s.g, 3 * s.g, s.u, 100 * s.g]), "per": 1 if rng.random() < 0.4 else 0}
        if s.h > 200 and a["max"]:
            a["max"] = max(a["max"], s.h * s.g // 50)
        if rng.random() < 0.5:
            a["tag"] = rng.choice(["silence", "rest", "", ["a", "b"], s.tag()])
        if rng.random() < 0.3:
            a["pitch"] = rng.choice([1, 60])
        if rng.random() < 0.3:
            a["q"] = "B"
        steps.append(["fillSil", a])
    return s.prog(steps)


# ------------------------------------------------------------------- C06

def legatos(rng, i):
    s = Space(rng)
    steps = [s.new()] + prep(s)
    for _ in range(rng.choice([1, 2, 3])):
        x = rng.random()
        if x < 0.7:
            steps.append(["legato", {"p": "A", "pitch": rng.randrange(2)}])
        else:
            steps.append(["fillPrev", {"p": "A"}])
        if rng.random() < 0.3:
            steps.append(["addEvent", {"p": "A", "e": s.ev()}])
    return s.prog(steps)


# ------------------------------------------------------------------- C07

def quantizes(rng, i):
    s = Space(rng)
    steps = [s.new()] + prep(s)
    for _ in range(rng.choice([1, 2])):
        steps.append(["quantize", {"p": "A", "step": rng.choice([1, 2, 3, 4, 5, 8, 16]) * s.g, "qs": rng.choice([1, 1, 0]),
                                   "qd": rng.choice([1, 1, 0])}])
    return s.prog(steps)


def aligns(rng, i):
    s = Space(rng, big=rng.random() < 0.3)
    steps = [s.new()] + prep(s)
    steps = [x for x in steps if x[0] != "transpose"]
    step = rng.choice([1, 2, 3, 4, 5, 8]) * s.g
    if not s.dyadic and step % 2 == 0 and s.g % 2:
        step += s.g     # no onset is then halfway between two steps, where rounding decides
    if rng.random() < 0.5:
        steps.append(["fillSil", {"p": "A", "max": 0, "per": 0}])
    a = {"p": "A", "step": step}
    if rng.random() < 0.7:
        a["rep"] = rng.sample(s.tags, rng.randint(0, len(s.tags)))
        if rng.random() < 0.4:
            a["rep"] = a["rep"] + ["silence"]
    steps.append(["align", a])
    if rng.random() < 0.3:
        steps.append(["align", dict(a)])
    if events(steps[0]) and rng.random() < 0.3:
        steps.insert(1, ["cutInSteps", {"p": "A", "i": 0, "step": step}])
    return s.prog(steps)


# ------------------------------------------------------------------- C08

def query(s, tags):
    """a query on tags"""
    kind = s.r.choice(["exact", "loose", "list", "fn"])
    pool = tags + ["zz", "a", ["a", "b"], 1]
    q = [s.r.choice(pool)]
    if kind in ("list", "fn"):
        q = [s.r.choice(pool) for _ in range(s.r.choice([1, 2, 3]))]
    return {"kind": kind, "q_": q}


def selections(rng, i):
    s = Space(rng)
    if rng.random() < 0.5:
        s = Space(rng, tags=rng.choice([TUPLES, SUBSTR]))
    s.zero = rng.choice([0, 0, 0.3])
    steps = [s.new(cover=rng.random() < 0.9)] + prep(s, rng.choice([0, 0, 1]))
    steps = [x for x in steps if x[0] not in ("transpose", "stretch")]
    for _ in range(rng.choice([2, 4])):
        x = rng.random()
        if x < 0.7:
            steps.append(["withTags", dict(query(s, s.tags), p="A", out=rng.randrange(2), copy=rng.randrange(2))])
        elif x < 0.85:
            steps.append(["withPitch", {"p": "A", "x": rng.choice(s.pitches + [3]), "copy": rng.randrange(2)}])
        elif x < 0.95:
            steps.append(["tagsPitches", {"p": "A"}])
        else:
            steps.append(["copyNoEv", {"p": "A"}])
    return s.prog(steps)


# ------------------------------------------------------------------- C09

def removals(rng, i):
    s = Space(rng, tags=rng.choice([None, TUPLES, SUBSTR, INTS, LONG]))
    s.h = min(s.h, 6)
    s.zero = rng.choice([0, 0, 0.3])
    new = s.new()
    ev = events(new)
    steps = [new]
    for _ in range(rng.choice([1, 2, 3])):
        x = rng.random()
        if x < 0.25 and ev:
            steps.append(["removeEvent", {"p": "A", "e": list(rng.choice(ev)) if rng.random() < 0.8 else s.ev()}])
        elif x < 0.5:
            steps.append(["removeByTags", {"p": "A", "tags": rng.sample(s.tags, rng.randint(0, len(s.tags))) +
                                           ([] if rng.random() < 0.5 else [rng.choice(["a", "b", 1, "zz", "c", "w", "d"])])}])
        elif x < 0.75:
            steps.append(["identical", {"p": "A", "e": s.ev(), "all": rng.randrange(2)}])
        else:
            e = list(rng.choice(ev)) if ev and rng.random() < 0.6 else s.ev()
            if rng.random() < 0.5:
                k = rng.randrange(5)
                e[k] = s.ev()[k]
            steps.append(["compare", {"p": "A", "e": e, "tags": rng.sample(s.tags, rng.randint(0, len(s.tags))) +
                                      rng.choice([[], ["a"], [["a", "b"]], ["b", "zz"], [1], ["c"], ["w"], ["zz", "d"]])}])
    return s.prog(steps)


def equalities(rng, i):
    s = Space(rng, big=False)
    s.zero = rng.choice([0, 0, 0.3])
    ev = s.evs()
    ev2 = [list(e) for e in ev]
    a, b = s.new(evs=ev), s.new("B", evs=ev2)
    b[1] = dict(a[1], p="B", ev=ev2)
    x = rng.randrange(9)
    if x == 0 and ev2:
        rng.shuffle(ev2)
    elif x in (1, 2, 3) and ev2:
        e, k = rng.choice(ev2), rng.randrange(5)
        e[k] = rng.choice([s.ev()[k], e[k] + 1 if isinstance(e[k], int) else "other"])
    elif x == 4:
        b[1]["dur"] += s.g
    elif x == 5:
        b[1]["ts"] = [5, 4]
    elif x == 6:
        b[1]["st"] = b[1].get("st", 0) + s.g
    elif x == 7:
        b[1].update(bpm=77, name="other", key="Em")
    elif x == 8 and ev2:
        ev2.pop()
    return s.prog([a, b, ["patEq", {"p": "A", "q": "B"}]])


# ------------------------------------------------------------------- C10

DERIVE = ["copy", "window", "withTags", "withPitch", "fillSil", "split", "copyNoEv", "json", "pickle"]
EDITS = ["edit", "edit", "edit", "addEvent", "delEvent", "editMeta", "stretch", "transpose", "quantize", "removeOverlapped",
         "legato", "fillPrev", "fillSilP", "durToLast", "reorder", "removeByTags", "removeEvent", "align", "durToBar"]
LOOK = ["lastNoteOff", "activeAt", "startingAt", "contains", "tagsPitches", "identical", "compare", "patEq", "listing",
        "grid", "withTagsQ", "windowQ", "json", "pickle"]


def derive(s, p, q):
    r = s.r
    x = r.choice(DERIVE)
    if x == "copy":
        return [["copy", {"p": p, "q": q}]]
    if x == "window":
        return [["window", {"p": p, "q": q, "s": s.t(), "len": s.d() + s.g, "trim": r.randrange(2)}]]
    if x == "withTags":
        return [["withTags", dict(query(s, s.tags), p=p, q=q, out=r.randrange(2), copy=1 if r.random() < .6 else 0)]]
    if x == "withPitch":
        return [["withPitch", {"p": p, "q": q, "x": r.choice(s.pitches), "copy": r.randrange(2)}]]
    if x == "fillSil":
        return [["fillSil", {"p": p, "q": q, "max": r.choice([0, s.g]), "per": r.randrange(2)}]]
    if x == "copyNoEv":
        return [["copyNoEv", {"p": p, "q": q}]]
    if x == "split":
        return [["durToLast", {"p": p, "only": 1}],
                ["split", {"p": p, "q": [q], "len": max(s.h // 2, 1) * s.g, "copy": 1, "sup": 1}]]
    return [[x, {"p": p, "q": q, "idx": 1, "tup": 0}]]


def edit(s, p, x=None):
    r = s.r
    x = x or r.choice(EDITS)
    if x == "edit":
        f = r.choice("sdpvt")
        v = {"s": s.t(), "d": s.d(), "p": r.choice([1, 60, 100]), "v": r.choice([0, 33]), "t": s.tag()}[f]
        return ["edit", {"p": p, "i": r.randrange(9), "f": f, "x": v}]
    if x == "addEvent":
        return ["addEvent", {"p": p, "e": s.ev()}]
    if x == "delEvent":
        return ["delEvent", {"p": p, "i": r.randrange(9)}]
    if x == "editMeta":
        f = r.choice(["bpm", "ts", "tsi", "tsi", "key", "name", "res", "fp", "st"])
        v = {"bpm": 99, "ts": [5, 8], "tsi": 9, "key": "F#", "name": "new", "res": 24, "fp": "/else", "st": s.g}[f]
        return ["editMeta", {"p": p, "f": f, "x": v}]
    if x == "stretch":
        return ["stretch", {"p": p, "num": 2, "den": 1}]
    if x == "transpose":
        return ["transpose", {"p": p, "n": r.choice([-1, 2])}]
    if x == "quantize":
        return ["quantize", {"p": p, "step": r.choice([2, 4]) * s.g, "qs": 1, "qd": r.randrange(2)}]
    if x == "removeOverlapped":
        return ["removeOverlapped", {"p": p, "pitch": r.randrange(2)}]
    if x == "legato":
        return ["legato", {"p": p, "pitch": r.randrange(2)}]
    if x == "fillSilP":
        return ["fillSil", {"p": p, "max": 0, "per": 0}]
    if x == "durToLast":
        return ["durToLast", {"p": p, "only": r.randrange(2)}]
    if x == "removeByTags":
        return ["removeByTags", {"p": p, "tags": [s.tag()]}]
    if x == "removeEvent":
        return ["removeEvent", {"p": p, "i": r.randrange(9), "e": s.ev()}]
    if x == "align":
        return ["align", {"p": p, "step": r.choice([1, 2]) * s.g}]
    return [x, {"p": p}]


def look(s, p, q):
    r = s.r
    x = r.choice(LOOK)
    if x in ("lastNoteOff", "tagsPitches", "listing", "grid"):
        return [x, {"p": p}]
    if x in ("activeAt", "contains"):
        return [x, {"p": p, "t": s.t()}]
    if x == "startingAt":
        return [x, {"p": p, "t": s.t(), "tol": s.g}]
    if x == "identical":
        return [x, {"p": p, "e": s.ev(), "all": r.randrange(2)}]
    if x == "compare":
        return [x, {"p": p, "e": s.ev(), "tags": [s.tag()]}]
    if x == "patEq":
        return [x, {"p": p, "q": q}]
    if x == "withTagsQ":
        return ["withTags", dict(query(s, s.tags), p=p, out=0, copy=r.randrange(2))]
    if x == "windowQ":
        return ["window", {"p": p, "s": s.t(), "len": s.d(), "trim": r.randrange(2)}]
    return [x, {"p": p, "idx": r.randrange(2), "tup": 1}]


def heaps(rng, i):
    """several patterns derived from one another, edited and looked at"""
    s = Space(rng, dyadic=True, big=False, tags=rng.choice([PLAIN, TUPLES, SUBSTR, LETTERS]))
    s.nev = rng.choice([1, 2, 3, 4])
    new = s.new()
    if rng.random() < 0.5:
        new[1]["tsl"] = [4, 4]
    steps = [new]
    names = ["A"]
    for _ in range(rng.choice([4, 6, 9])):
        x = rng.random()
        p = rng.choice(names)
        if x < 0.3 and len(names) < 4:
            q = "BCDE"[len(names) - 1]
            d = derive(s, p, q)
            steps += d
            if d[-1][0] != "split":
                names.append(q)
            else:
                steps[-1][1]["q"] = []
        elif x < 0.75:
            steps.append(edit(s, p))
        else:
            steps.append(look(s, p, rng.choice(names)))
    return s.prog(steps, heap=True)


def slices(rng, i):
    """viewpoints, whose events refer to slices, derived from, edited and looked at"""
    s = Space(rng, dyadic=True, big=False, tags=rng.choice([PLAIN, TUPLES]))
    s.nev = rng.choice([1, 2, 3, 4])
    s.h = min(s.h, 8)
    steps, names = [s.new()], ["A"]
    steps[0][1].pop("st", None)

    def view(p, n, reg):
        a = {"p": p, "name": n, "d": {"k": rng.choice(["density", "tags"])}, "how": rng.choice([1, 1, 2, 4])}
        if reg:
            a["q"] = reg
        return ["viewpoint", a]
    steps.append(view("A", "v", rng.choice(["B", None])))
    if "q" in steps[-1][1]:
        names.append("B")
    for _ in range(rng.choice([3, 5, 7])):
        x = rng.random()
        p = rng.choice(names)
        q = "ABCDE"[len(names)] if len(names) < 5 else "E"
        if x < 0.35 and len(names) < 5:
            y = rng.randrange(4)
            steps.append([["copy", {"p": p, "q": q}], ["withPitch", {"p": p, "q": q, "x": rng.choice(s.pitches + [60]), "copy": 1}],
                          ["window", {"p": p, "q": q, "s": 0, "len": s.h * s.g, "trim": rng.randrange(2)}],
                          ["withTags", {"p": p, "q": q, "kind": "fn", "q_": ["none"], "out": 1, "copy": rng.choice([1, 1, 0])}]][y])
            names.append(q)
        elif x < 0.5:
            steps.append(["editSlice", {"p": p, "i": rng.randrange(4), "f": rng.choice(["p", "del", "bpm"])}])
        elif x < 0.65:
            steps.append(["editVp", {"p": p, "i": 0, "f": rng.choice(["t", "t", "del", "bpm"])}])
        elif x < 0.72:
            steps.append(view("A", rng.choice("vw"), None))
        elif x < 0.9:
            steps.append(edit(s, p, rng.choice(["edit", "edit", "transpose", "addEvent", "delEvent", "editMeta", "stretch"])))
        else:
            steps.append(rng.choice([["describe", {"p": p, "d": {"k": "density"}}], ["patEq", {"p": p, "q": rng.choice(names)}], ["listing", {"p": p}]]))
    return s.prog(steps, heap=True)


# ------------------------------------------------------------------- C11

def stretches(rng, i):
    s = Space(rng, grid=rng.choice([(960, 960), (960, 240), (1920, 960), (2880, 960), (9600, 960)]))
    s.h = min(s.h, 100)
    s.zero = rng.choice([0, 0, 0.3])
    steps = [s.new(cover=rng.random() < 0.8)]
    k = 0
    for _ in range(rng.choice([1, 2, 3])):
        x = rng.random()
        if x < 0.5 and k < 1:
            k += 1
            n, d = rng.choice([(1, 2), (2, 1), (3, 1), (1, 3), (3, 2), (2, 3), (5, 4), (4, 5), (1, 10), (10, 1), (1, 1), (7, 1)])
            steps.append(["stretch", {"p": "A", "num": n, "den": d}])
            if rng.random() < 0.5:
                steps.append(["stretch", {"p": "A", "num": d, "den": n}])
        else:
            n = rng.choice([-24, -13, -12, -7, -1, 0, 1, 5, 11, 12, 25])
            steps.append(["transpose", {"p": "A", "n": n}])
            if rng.random() < 0.5:
                steps.append(["transpose", {"p": "A", "n": -n}])
    return s.prog(steps)


def pitches(rng, i):
    """every pitch, every interval"""
    n = rng.randint(-40, 40)
    ev = [[k, 1, p, 80, rng.choice(TUPLES)] for k, p in enumerate(rng.sample(range(128), 24))]
    return {"u": 1, "steps": [["new", {"p": "A", "dur": 24, "ev": ev}], ["transpose", {"p": "A", "n": n}],
                              ["transpose", {"p": "A", "n": -n}]]}


# ------------------------------------------------------------------- C12

def roundtrips(rng, i):
    s = Space(rng, tags=UNICODE if rng.random() < 0.1 else None)
    s.zero = rng.choice([0, 0, 0.3])
    names = ["Riff", "x y", "", "p.1", "Beat_4", u"Caf\u00e9"]
    new = s.new(cover=rng.random() < 0.85, name=rng.choice(names))
    a = new[1]
    if rng.random() < 0.3:
        a["tsl"] = [3, 4]
    steps = [new]
    vps = []
    for k in range(0 if not a["name"] else rng.choice([0, 0, 1, 2])):
        q = "V%d" % k
        parent = rng.choice(["A"] + vps)
        vn = s.new(q, name="vp%d" % k)
        steps.append(vn)
        steps.append(["setVp", {"p": parent, "q": q, "key": "vp%d" % k}])
        vps.append(q)
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.7:
            b = {"p": "A", "idx": rng.randrange(2), "tup": 1, "q": "R"}
            if rng.random() < 0.3:
                b["suffix"] = rng.choice(["_1", ".b"])
            b["tup"] = rng.randrange(2)
            steps.append(["json", b])
        else:
            steps.append(["pickle", {"p": "A", "q": "R", "suffix": rng.choice([None, "_2"])}])
        if rng.random() < 0.4:
            steps.append(["addEvent", {"p": "A", "e": s.ev()}])
        elif rng.random() < 0.3 and len(steps) < 8:
            b = dict(steps[-1][1], p="R", q="R2")
            steps.append([steps[-1][0], b])
    return s.prog(steps, log=[k for k, x in enumerate(steps) if x[0] in ("json", "pickle")])


def legacy(rng, i):
    s = Space(rng, big=False)
    tags = rng.sample(["Kick", "Snare", "a", "b", "C", "maj"], 4)
    ev = []
    for e in s.evs():
        ix = rng.randrange(4) if rng.random() < 0.4 else [rng.randrange(4) for _ in range(rng.choice([1, 2, 2, 3, 0]))]
        ev.append(e[:4] + [ix])
    return {"u": s.u, "steps": [["legacyJson", {"name": rng.choice(["n", ""]), "dur": rng.randint(0, 12) * s.g,
                                                "bpm": rng.choice([120, 99.5]), "ts": rng.choice([[4, 4], [6, 8]]),
                                                "tags": tags, "ev": ev}]]}


# ------------------------------------------------------------------- C26

def histories(rng, i):
    """long histories of edits of one pattern; B gets the same edits"""
    s = Space(rng, grid=rng.choice([(16, 4), (16, 16), (64, 16), (1, 1), (4, 1)]), big=False,
              tags=rng.choice([PLAIN, TUPLES, SUBSTR, LETTERS]))
    s.nev = rng.choice([1, 2, 3, 4, 6])
    new = s.new(name=rng.choice(["Riff", "", "x y"]))
    steps = [new]
    n = 0
    for _ in range(rng.choice([5, 8, 12, 20])):
        r = rng.choice(["addEvent", "addEvent", "removeEvent", "removeByTags", "stretch", "quantize", "align", "fillSilP",
                        "fillSilM", "fillSilT", "legato", "fillPrev", "removeOverlapped", "transpose", "durToLast", "durToBar",
                        "reorder", "split", "json", "pickle", "window", "withTags", "delEvent"])
        if r == "stretch":
            n += 1
            if n > 2:
                continue
            x, y = rng.choice([(2, 1), (1, 2), (3, 1), (4, 1)])
            steps.append(["stretch", {"p": "A", "num": x, "den": y}] if y == 1 or n == 1 and s.g % 4 == 0
                         else ["stretch", {"p": "A", "num": 2, "den": 1}])
        elif r == "quantize":
            steps.append(["quantize", {"p": "A", "step": rng.choice([1, 2, 3, 4]) * s.g, "qs": rng.randrange(2), "qd": rng.randrange(2)}])
            steps.append(["durToLast", {"p": "A", "only": 1}])
        elif r == "align":
            a = {"p": "A", "step": rng.choice([1, 2, 4]) * s.g}
            if rng.random() < 0.5:
                a["rep"] = rng.sample(s.tags, rng.randint(0, len(s.tags)))
            steps.append(["align", a])
            steps.append(["durToLast", {"p": "A", "only": 1}])
        elif r in ("fillSilM", "fillSilT"):
            steps.append(["fillSil", {"p": "A", "max": rng.choice([0, s.g, 2 * s.g, 3 * s.g]), "per": 1 if r[-1] == "T" else 0}])
        elif r == "fillPrev":
            steps.append(["durToLast", {"p": "A", "only": 1}])
            steps.append(["fillPrev", {"p": "A"}])
        elif r == "split":
            steps.append(["split", {"p": "A", "len": rng.choice([2, 3, 4, 8]) * s.g, "copy": 1, "sup": 1,
                                    "q": ["A"] if rng.random() < 0.2 else []}])
        elif r in ("json", "pickle"):
            steps.append([r, {"p": "A", "q": "A" if rng.random() < 0.6 else "C", "idx": 1, "tup": 0}])
        elif r == "window":
            steps.append(["window", {"p": "A", "s": s.t(), "len": s.d() + s.g, "trim": rng.randrange(2)}])
        elif r == "withTags":
            steps.append(["withTags", {"p": "A", "kind": "exact", "q_": [s.tag()], "out": rng.randrange(2), "copy": rng.randrange(2)}])
        else:
            steps.append(edit(s, "A", r))
    if rng.random() < 0.4:      # a twin undergoes the same edits
        k = rng.randrange(1, len(steps) + 1)
        two = steps[:k] + [["copy", {"p": "A", "q": "B"}]]
        for x, a in steps[k:]:
            b = dict(a, p="B")
            if a.get("q") in ("A", ["A"]):
                b["q"] = "B" if a["q"] == "A" else ["B"]
            two += [[x, a], [x, b]]
        return s.prog(two + [["patEq", {"p": "A", "q": "B", "must": 1}]])
    return s.prog(steps)


# ------------------------------------------------------------------- C27

def prints(rng, i):
    """patterns of voices of one note at a time, or not, printed with several sizes of steps"""
    s = Space(rng, dyadic=True, grid=rng.choice([(1, 1), (2, 1), (4, 1), (4, 2), (8, 1)]))
    s.h = min(s.h, 30)
    s.maxd = min(s.maxd, 8)
    s.tags = ["one" if isinstance(t, str) and t.isdigit() else t for t in s.tags]     # 1 and "1" look the same
    new = s.new(cover=rng.random() < 0.9)
    if rng.random() < 0.6:
        ends = {}
        for e in new[1]["ev"]:
            k = str(e[4])
            e[0] = ends.get(k, 0) + rng.choice([0, 0, s.g, e[0]])
            ends[k] = e[0] + e[1]
        new[1]["dur"] = max([new[1]["dur"]] + list(ends.values()))
        if s.order == "shuffled":
            rng.shuffle(new[1]["ev"])
    steps = [new] + prep(s)
    for b in rng.sample([1, 2, 3, 4, 8], 2):
        steps.append(["printed", {"p": "A", "block": b * s.g if rng.random() < 0.7 else s.u, "dflt": rng.randrange(2)}])
    steps.append(["listing", {"p": "A"}])
    return s.prog(steps)


# ------------------------------------------------------------------- C28

def spellings(rng, i):
    """chords of any intervals from any root, pitch classes of any octave, names of another scale"""
    x = rng.randrange(4)
    if x < 2:
        steps = [["spellChord", {"root": rng.randrange(0, 240), "steps": [rng.randint(0, 45) for _ in range(rng.randint(0, 7))]}]]
    elif x == 2:
        steps = [["spellClass", {"pc": rng.randint(-200, 200), "alt": rng.choice("#b"), "lit": rng.randrange(2), "uni": rng.randrange(2)}]]
    else:
        steps = [["spellPitch", {"pitch": rng.randint(0, 300), "names": ["n%c" % (97 + k) for k in range(rng.choice([1, 5, 7, 12, 19]))]}]]
    return {"u": 1, "steps": steps}


# ------------------------------------------------------------------- C29

def fileSearches(rng, i):
    """more files in more folders, with names that look like patterns, and several suffixes"""
    dirs = ["r"]
    for d in rng.sample(["a", "b.mid", "[1]", "a[1-3]", ".h", "x y", "a*", "q?"], rng.randint(0, 4)):
        dirs.append(rng.choice(dirs) + "/" + d)
    stems = ["kick", "Kick", "a", "b", "ab", ".x", "a.b", "k[1]", "1", "!", "a*b", "q?", "x y", "mid", "[abc]", "x.mid"]
    ends = ["", ".mid", ".MID", ".midi", ".txt", ".mid.txt", "id", ".json", "[1].mid", "*"]
    files = sorted(set(rng.choice(dirs) + "/" + rng.choice(stems) + rng.choice(ends) for _ in range(rng.randint(0, 12))) - set(dirs))

    def want(many=True):
        n = rng.choice([0, 1, 1, 2, 3] if many else [0, 1, 1])
        return {"any": 0 if n else 1, "of": [rng.choice(ends) for _ in range(n)], "list": rng.randrange(2)}
    if rng.random() < 0.6:
        # folders inside the folders searched are left out unless their names do not suit
        w = want()
        if w["any"] or any(d.endswith(s) for d in dirs for s in w["of"]):
            dirs = [d for d in dirs if d.count("/") == 0] + ["t"]
            files = [f for f in files if f.count("/") == 1]
        qs = [rng.choice(dirs + files + (["r/none"] if rng.random() < 0.1 else [])) for _ in range(rng.choice([1, 1, 2, 4]))]
        return {"u": 1, "steps": [["search", {"files": files, "dirs": dirs, "qs": qs, "want": w, "rel": rng.randrange(2),
                                              "list": rng.randrange(2), "slash": 1 if rng.random() < 0.1 else 0}]]}
    where = ["", "", "d/", "/d/e/", "[1]/"]
    ys = [rng.choice(where) + rng.choice(stems) + rng.choice(ends) for _ in range(rng.randint(0, 12))]
    ys += [rng.choice(ys) for _ in range(rng.randrange(2)) if ys]
    x = rng.choice(where) + (rng.choice(ys).rsplit("/", 1)[-1] if ys and rng.random() < 0.6 else rng.choice(stems) + rng.choice(ends))
    return {"u": 1, "steps": [["matchNames", {"x": x, "ys": ys, "sx": want(False), "sy": want(False)}]]}
