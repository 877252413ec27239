"""Steps of the models, as TLC prints them -> programs for the driver."""
import gens_midi as GM


def untag(t):
    """canonical text -> tag (tuples are lists)"""
    if t.startswith("s:"):
        return t[2:]
    if t.startswith("i:"):
        return int(t[2:])
    if t.startswith("t:("):
        return [untag(x) for x in t[3:-1].split(",")] if len(t) > 4 else []
    raise ValueError(t)


def ev(e):
    return [e["s"], e["d"], e["p"], e["v"], untag(e["t"])]


def patternStep(act, p="A"):
    name, a = act["op"], dict(act["a"])
    a.pop("z", None)
    if "e" in a:
        a["e"] = ev(a["e"])
    if name == "durToBar":
        return None
    if name == "withTags":
        a["q_"] = [untag(x) for x in a.pop("q")]
    elif name in ("removeByTags", "compare"):
        a["tags"] = [untag(x) for x in a.pop("q")]
    elif name == "align":
        a["rep"] = [untag(x) for x in a["rep"]]
    elif name == "fillSil":
        a = {"max": a["max"], "per": a["per"], "tag": untag(a["t"])}
    a["p"] = p
    return [name, a]


def patternTest(t, rng, scales):
    """one transition of PatternSM, at several scales of time"""
    evs = [ev(e) for e in t["ev"]]
    for u, k in scales:
        new = {"p": "A", "dur": t["dur"], "ev": evs}
        if t["act"]["op"] == "durToBar":
            # bars are in beats: the units are beats
            yield {"u": 1, "steps": [["new", dict(new, ts=[t["act"]["a"]["bar"], 4])], ["durToBar", {"p": "A"}]]}
            return
        step = patternStep(t["act"])
        yield {"u": u, "steps": [["new", new], step]}


def densityTest(t, rng, n):
    """a history of densities asked for, from DensitySM"""
    k = rng.choice([1, 2, 3])
    evs = [[j * k, k, 60 + j, 100, tag] for tag in sorted(t["orig"]) for j in t["orig"][tag]]
    steps = [["new", {"p": "A", "dur": n * k, "ev": evs}]]
    for i, f in enumerate(t["hist"]):
        a = {"t": "T", "mode": rng.choice(["random", "hysteresis"]) if i == 0 else "random", "n": n, "seed": rng.randrange(10 ** 9),
             "dens": [[tag, f[tag], 4] for tag in sorted(f) if f[tag] != -1]}
        if i == 0:
            a["p"] = "A"
        steps.append(["density", a])
    yield {"u": rng.choice([k, 1, 4, 8]), "steps": steps}


def bassTest(t, rng):
    """lines to learn and the states allowed at each beat, from BassSM: kick beats that were only seen with these"""
    les = [["line", q] for q in t["lines"]]
    kicks = rng.sample([k for k in range(16) if k != 8], len(t["allowed"]))
    for k, s in zip(kicks, t["allowed"]):
        les.append(["pair", [[k] * len(s), s]])
    steps = [["bassConstrain", {"m": "M", "learn": les, "target": kicks}]]
    n = len(kicks)
    steps.append(["bassGenerate", {"m": "M", "learn": [], "kind": "kick", "len": n + rng.choice([-1, 0, 0, 3]), "target": kicks, "runs": 60,
                                   "seed": rng.randrange(10 ** 6)}])
    q = rng.choice(t["lines"])
    mask = [q[0]] + [rng.choice(s) if len(s) == 1 or rng.random() < 0.3 else -1 for s in t["allowed"][1:]]
    line = [x if x >= 0 else rng.randrange(16) for x in mask]
    steps.append(["bassVary", {"m": "M", "learn": [], "mask": mask}])
    steps.append(["bassGenerate", {"m": "M", "learn": [], "kind": "keep", "len": n, "line": line, "mask": mask, "runs": 60,
                                   "seed": rng.randrange(10 ** 6)}])
    yield {"u": 1, "steps": steps}


def codecTest(t, rng):
    """a track, from MidiSM: a file to read, written with running status or not, and messages to write"""
    track = [tuple(m) for m in t["t"]]
    two = rng.random() < 0.3
    tracks = [track] + ([track[:1] + [(5, 255, 47, [])] if track[0][2] != 47 else track] if two else [])
    for running in (0, 1):
        yield {"u": 1, "steps": [["midiRead", {"bytes": GM.encode(1, 96, tracks, rng, pad=rng.choice([0, 0, 3]), running=running),
                                               "how": rng.choice(["path", "file"]), "twice": running}]]}
    msgs = [[{"dt": dt, "k": k, "c": c, "v": d, "raw": 1 if k in (240, 224) or (k == 255 and c in (81, 47)) else rng.randrange(2)} for dt, k, c, d in tr] for tr in tracks]
    yield {"u": 1, "steps": [["midiWrite", {"fmt": 1, "res": 96, "tracks": msgs, "style": rng.randrange(4), "abs": rng.randrange(2)}]]}


def pairTest(t, rng):
    """a track of notes, from MidiSM"""
    m = rng.choice(["pitchName", "pitchName", [["all", {"one": ["*", "*"]}]], [["a", {"one": ["*", 0]}], ["b", {"list": [["*", 1]]}]]])
    a = {"bytes": GM.encode(rng.choice([0, 1]), 96, [[tuple(x) for x in t["t"]]], rng, running=rng.choice([0, 1])), "map": m,
         "default": rng.randrange(2)}
    yield {"u": 1, "steps": [["midiImport", a]]}
    if rng.random() < 0.25:
        yield {"u": 1, "steps": [["midiImport", dict(a, over=1)]]}


def exportTest(t, rng):
    """a pattern, from ExportSM"""
    u = rng.choice([1, 2, 4, 3, 10])
    notes = list(t["notes"])
    rng.shuffle(notes)
    evs = [[n["s"], n["e"] - n["s"], n["p"], n["v"], rng.choice(["a", "b", ["a", "c"]])] for n in notes]
    new = {"p": "A", "dur": t["dur"], "ev": evs, "name": "loop", "ts": [3, 4], "res": rng.choice([96, 960, 100])}
    a = {"p": "A", "bpm": rng.choice([[120, 1], [90, 1]])}
    if rng.random() < 0.4:
        a["map"] = [["a", rng.choice([10, 20])]] + ([["b", 30]] if rng.random() < 0.5 else [])
    yield {"u": u, "steps": [["new", new], ["midiExport", a]]}


def mappingTest(t, rng):
    """a mapping and options, from MappingSM, for its file"""
    def track(name):
        r = [(0, 255, 3, [ord(x) for x in name])]
        for p, c in ((36, 0), (36, 1), (38, 0), (38, 1)):
            r += [(1, 144, c, [p, 64]), (1, 128, c, [p, 64])]
        return r + [(0, 255, 47, [])]
    o = t["opts"]

    def cond(c):
        x = ["*" if y == -1 else y for y in c]
        return x[0] if x[1] == "*" and x[0] != "*" and rng.random() < 0.5 else x
    m = [[e["l"], {"one": cond(e["conds"][0])} if len(e["conds"]) == 1 and rng.random() < 0.5 else {"list": [cond(c) for c in e["conds"]]}]
         for e in t["map"]]
    yield {"u": 1, "steps": [["midiImport", {"bytes": GM.encode(1, 4, [track("Kick"), track("Snare")], rng), "map": m, "tracks": o["wantI"] + o["wantN"],
                                             "tfn": o["tfn"], "filter": o["filter"]}]]}


def heapTest(t, rng):
    """a history of patterns derived from one another and edited, from HeapSM"""
    evs = [[0, 2, 60, 80, "a"], [1, 2, 60, 80, "b"], [4, 1, 62, 80, "a"]]
    steps, n = [["new", {"p": "A", "dur": 6, "ev": evs, "tsl": [4, 4]}]], 1
    for x in t["hist"]:
        op, a, p = x["op"], dict(x["a"]), "ABCDE"[x["r"] - 1]
        new = op in ("copy", "json", "pickle", "copyNoEv", "window", "withTags", "withPitch", "split") or (op == "fillSil" and x["new"])
        a.pop("z", None)
        if op == "edit":
            a["x"] = {"s": 2, "d": 3, "p": 1, "v": 33, "t": "b"}[a["f"]]
        elif op == "editMeta" and rng.random() < 0.3:
            a = rng.choice([{"f": "tsi", "x": 9}, {"f": "key", "x": "F#"}, {"f": "name", "x": "n"}, {"f": "res", "x": 24}])
        elif op == "addEvent":
            a["e"] = ev(a["e"])
        elif op == "withTags":
            a["q_"] = [untag(y) for y in a.pop("q")]
        elif op == "removeByTags":
            a["tags"] = [untag(y) for y in a.pop("q")]
        a["p"] = p
        if new:
            q = "ABCDE"[n]
            n += 1
            a["q"] = [q] if op == "split" else q
        steps.append([op, a])
    yield {"u": 4, "steps": steps, "heap": True}


def given(t, rng, tags, explicit):
    """the patterns given to a style, from StyleSM, with onsets around the steps"""
    n = len(t["given"][0])
    step = rng.choice([6, 12])
    steps, names = [], []
    for i, g in enumerate(t["given"]):
        ev = []
        for k, st in enumerate(g):
            for tag in st:
                tag = untag(tag)
                if tag == "silence":
                    if not explicit or rng.random() < 0.7:
                        continue
                s = k * step
                if tag != "silence" and rng.random() < 0.3:
                    s = max(0, s + rng.choice([-1, 1, 2, -2]) * step // 6)
                d = step if tag == "silence" else min(n * step - s, rng.choice([1, step, step, 2 * step]))
                ev.append([s, d, 60, 90, tags.get(tag, tag) if tag != "silence" else tag])
                if tag != "silence" and rng.random() < 0.1:
                    ev.append(list(ev[-1]))
        rng.shuffle(ev)
        names.append("ABCDEFGH"[i])
        steps.append(["new", {"p": names[-1], "dur": n * step, "ev": ev}])
    return n, step, steps, names


STYLE_TAGS = [{}, {"a": "Kick", "b": "Snare"}, {"a": ["a", "c"], "b": 1}, {"a": "a", "b": "ab"}, {"a": ["b", "a"], "b": ["a", "b"]}]


def styleTest(what):
    def convert(t, rng):
        n, step, steps, names = given(t, rng, rng.choice(STYLE_TAGS), what == "learn")
        u = rng.choice([step, step, step * n, step * 2 if n % 2 == 0 else step])
        a = {"s": "S", "order": t["order"], "n": n, "loop": n * step, "ps": names}
        if what == "learn":
            if rng.random() < 0.3 and len(names) > 1:
                steps.append(["learn", dict(a, ps=names[:1])])
                steps.append(["learn", dict(a, again=1, build=rng.randrange(2))])
            else:
                steps.append(["learn", a])
            steps.append(["styleQueries", {"s": "S", "shift": [0, -1]}])
        elif what == "generate":
            steps.append(["learn", a])
            steps.append(["generate", {"s": "S", "runs": 60, "seed": rng.randrange(10 ** 6)}])
        else:
            steps.append(["learn", a])
            how = [rng.choice(["json", "pickle"]) for _ in range(2)]
            steps.append(["saveStyle", {"s": "S", "t": "T", "how": how[0]}])
            steps.append(["generate", {"s": "T", "runs": 12, "seed": rng.randrange(10 ** 6)}])
            steps.append(["saveStyle", {"s": "T", "t": rng.choice(["S", "U"]), "how": how[1]}])
        yield {"u": u, "steps": steps, "ints": rng.random() < 0.3}
    return convert


def condIn(q, rng):
    if q["kind"] == "none":
        return None
    x = [untag(y) for y in q["q"]]
    return x[0] if q["kind"] in ("loose", "exact") else rng.choice([x, x, {"fn": x}])


def descriptorTest(t, rng):
    """the patterns that one descriptor describes, from DescriptorSM"""
    d = {"k": t["desc"]["k"], "obj": "d"}
    ign, inc = condIn(t["desc"]["ign"], rng), condIn(t["desc"]["inc"], rng)
    if ign != ["silence"] or rng.random() < 0.5:
        d["ign"] = ign
    if inc is not None:
        d["inc"] = inc
    steps = []
    for i, x in enumerate(t["uses"]):
        steps.append(["new", {"p": "AB"[i % 2], "dur": x["dur"], "ev": [ev(e) for e in x["ev"]]}])
        steps.append(["describe", {"p": "AB"[i % 2], "d": d}])
    if rng.random() < 0.3:
        steps.append(["describe", {"p": "A", "d": d}])
    yield {"u": rng.choice([1, 2, 4, 8]), "steps": steps, "ints": rng.random() < 0.5}


def rhythmTest(t, rng):
    """rhythms for one syncopation descriptor, from RhythmSM; some notes are tied, some short, some doubled"""
    u = rng.choice([1, 1, 2, 4])
    steps = []
    for i, on in enumerate(t["uses"]):
        evs, k, n = [], 0, len(on)
        while k < n:
            if not on[k]:
                k += 1
                continue
            d = 1
            while k + d < n and on[k + d] and rng.random() < 0.3:
                d += 1
            length = d * u - (rng.randrange(u) if u > 1 and rng.random() < 0.4 else 0)
            evs.append([k * u, max(1, length), rng.choice([36, 38]), 100, rng.choice(["a", "b"])])
            if rng.random() < 0.1:
                evs.append([k * u, 1, 40, 100, "c"])
            k += d
        rng.shuffle(evs)
        dur = n * u - (rng.randrange(u) if u > 1 and rng.random() < 0.2 and (not evs or max(e[0] + e[1] for e in evs) <= (n - 1) * u + 1) else 0)
        steps.append(["new", {"p": "AB"[i % 2], "dur": dur, "ev": evs}])
        steps.append(["describe", {"p": "AB"[i % 2], "d": {"k": "sync", "obj": "s"}}])
    if rng.random() < 0.3:
        steps.append(["describe", {"p": "A", "d": {"k": "sync", "obj": "s"}}])
    yield {"u": u, "steps": steps, "ints": rng.random() < 0.5}


def chordTest(t, rng):
    """notes that sound together or one after another, in some octaves, from ChordSM"""
    u, k, total = rng.choice([1, 2, 4, 10]), 0, t["len"]
    by = rng.randrange(12)
    evs = []
    for c, d in t["notes"]:
        parts = [d] if d < 2 or rng.random() < 0.6 else [1, d - 1]
        for x in parts:
            s = rng.choice([0, k])
            if s + x > total:
                s = 0
            evs.append([s, x, c + by + 12 * rng.randrange(0, 9), rng.choice([1, 64, 100]), rng.choice(["", "a", "b"])])
            k += x
    if rng.random() < 0.2:
        evs.append([0, total, rng.randrange(128), 0, "silence"])
    rng.shuffle(evs)
    dur = max([total] + [e[0] + e[1] for e in evs])
    d = {"k": "chord", "obj": "c"}
    steps = [["new", {"p": "A", "dur": dur, "ev": evs}], ["describe", {"p": "A", "d": d}]]
    steps.append(["describe", {"p": "A", "d": rng.choice([dict(d, obj="f", force=1), dict(d, obj="g", dup=1), dict(d, obj="h", dup=1, force=1)])}])
    if rng.random() < 0.3:
        steps += [["transpose", {"p": "A", "n": rng.choice([1, -1, 6, 12])}], ["describe", {"p": "A", "d": d}]]
    yield {"u": u, "steps": steps}


def viewTest(t, rng):
    """a pattern and how to slice it, from ViewSM"""
    h = t["how"]
    u = 1 if h["how"] == "step" else rng.choice([1, 2, 4])
    d = rng.choice([{"k": "density"}, {"k": "tags", "ign": ["60"]}, {"k": "tags", "obj": "t"}, {"k": "chord", "obj": "c"}, {"k": "sync", "obj": "s"}])
    steps = [["new", {"p": "A", "dur": t["len"], "ev": [ev(e) for e in t["ev"]]}]]
    for i in range(rng.choice([1, 1, 2])):
        steps.append(["viewpoint", {"p": "A", "name": rng.choice("xy"), "d": d, "how": h["len"] if h["how"] == "step" else h["how"]}])
    if rng.random() < 0.3:
        steps.append(["splitViewpoint", {"p": "A", "name": steps[-1][1]["name"], "len": rng.choice([1, 2, 3]) * u}])
    yield {"u": u, "steps": steps}


def gridTest(t, rng):
    """a pattern and the steps in which it is printed, from GridSM"""
    u = rng.choice([1, 2, 4])
    steps = [["new", {"p": "A", "dur": t["len"], "ev": [ev(e) for e in t["ev"]]}], ["printed", {"p": "A", "block": t["block"], "dflt": rng.randrange(2)}]]
    yield {"u": u, "steps": steps}


def spellTest(t, rng):
    """a chord built from a root, or a question on names, from SpellSM"""
    k, x, y = t["ask"]["k"], t["ask"]["x"], t["ask"]["y"]
    root = t["root"] + 40 * rng.choice([0, 0, 1, 3])
    steps = {"": [["spellChord", {"root": root, "steps": t["steps"]}]],
             "type": [["spellChord", {"root": root, "type": x}]] * 2,
             "class": [["spellClass", {"pc": y, "alt": x, "lit": 1}], ["spellClass", {"pc": y, "alt": x, "uni": rng.randrange(2)}],
                       ["spellClass", {"pc": y, "alt": "#", "dflt": 1}]],
             "pitch": [["spellPitch", {"pitch": y}]],
             "tables": [["pitchTables", {}]]}[k]
    if k == "tables" or rng.random() < 0.02:
        steps = [["spellChord", {"root": 2, "type": "min"}]] + steps + [["pitchTables", {}]]
    yield {"u": 1, "steps": steps}


def textOf(x):
    return "".join(chr(n) for n in x)


def fileTest(t, rng):
    """a folder tree and a search, or names to match, from FilesSM"""
    files = [textOf(f) for f in t["files"]]
    dirs = sorted(set(["r"] + ["r/" + d for d in ("a[1]", ".h", "s.m")] + [f.rsplit("/", 1)[0] for f in files]))
    k = t["ask"]

    def w(x):
        return {"any": x["any"], "of": [textOf(s) for s in x["of"]], "list": rng.randrange(2)}
    if k["k"] == "search":
        yield {"u": 1, "steps": [["search", {"files": rng.sample(files, len(files)), "dirs": dirs, "qs": [textOf(q) for q in k["qs"]],
                                             "want": w(k["want"]), "rel": rng.randrange(2), "slash": 1 if rng.random() < 0.2 else 0,
                                             "list": rng.randrange(2)}]]}
    else:
        names = rng.sample(files, len(files)) + ([files[0]] if rng.random() < 0.3 else [])
        yield {"u": 1, "steps": [["matchNames", {"x": textOf(k["qs"][0]), "ys": names, "sx": w(k["want"]), "sy": w(k["to"])}]]}


def jsonTest(t, rng):
    """patterns saved, loaded and edited, or a document of an older tool, from JsonSM"""
    h, g = t["hist"], rng.choice([1, 1, 3])
    u = rng.choice([1, 2, 4])

    def at(e):
        e = ev(e)
        return [e[0] * g, e[1] * g] + e[2:]
    first = h[0]["e"]
    if h[0]["op"] == "older":
        tags = [untag(x[0]) for x in first["tags"]]
        evs = []
        for x in first["ev"]:
            ix = [i - 1 for i in x["tag"]["ix"]]
            evs.append([x["e"]["s"] * g, x["e"]["d"] * g, x["e"]["p"], x["e"]["v"], ix[0] if x["tag"]["how"] == "index" else ix])
        yield {"u": u, "steps": [["legacyJson", {"name": "n", "dur": first["dur"] * g, "bpm": 120, "ts": [4, 4], "tags": tags, "ev": evs}]]}
        return
    steps = [["new", {"p": "A", "dur": first["dur"] * g, "name": "n", "ev": [at(e) for e in first["ev"]]}]]
    for s in h[1:]:
        if s["op"] == "addEvent":
            steps.append(["addEvent", {"p": "A", "e": at(s["e"])}])
        else:
            steps.append(["json", {"p": "A", "idx": s["idx"], "tup": 1 if rng.random() < 0.8 else 0, "q": "A"}])
    if rng.random() < 0.2:
        steps.append(["pickle", {"p": "A", "q": "R", "suffix": None}])
    yield {"u": u, "steps": steps, "log": [k for k, x in enumerate(steps) if x[0] in ("json", "pickle")]}


def historyTest(t, rng):
    """a history of HistorySM; sometimes a copy of the pattern undergoes the rest of it"""
    bars = [s["a"]["bar"] for s in t["hist"] if s["op"] == "durToBar"]
    u, k = (1, 1) if bars else rng.choice([(1, 1), (4, 1), (4, 4), (8, 1)])
    u, k = u * 64, k * 64               # where the code may choose otherwise than the model, times are still whole

    def scaled(a):
        a = dict(a)
        for x in {"e", "s", "step", "len", "max"} & set(a):
            a[x] = [a[x][0] * k, a[x][1] * k] + a[x][2:] if x == "e" else a[x] * k
        return a
    steps = [["new", {"p": "A", "dur": t["first"]["dur"] * k, "ts": [bars[0] if bars else 4, 4],
                      "ev": [[e[0] * k, e[1] * k] + e[2:] for e in map(ev, t["first"]["ev"])]}]]
    twin = rng.randrange(len(t["hist"])) if rng.random() < 0.4 else None
    for i, act in enumerate(t["hist"]):
        if i == twin:
            steps.append(["copy", {"p": "A", "q": "B"}])
        if act["op"] == "durToBar":
            if act["a"]["bar"] == bars[0]:
                s = ["durToBar", {"p": "A"}]
            else:
                continue
        else:
            s = patternStep(act)
            s[1] = scaled(s[1])
        steps.append(s)
        if twin is not None and i >= twin:
            steps.append([s[0], dict(s[1], p="B")])
    if twin is not None:
        steps.append(["patEq", {"p": "A", "q": "B", "must": 1}])
    yield {"u": u, "steps": steps}


def learnTest(t, rng):
    """lessons of a bass model, from LearnSM, in one step or read after each"""
    les = [[s["op"], [s["x"], s["y"]] if s["op"] == "pair" else s["x"] if s["op"] == "line" else 0] for s in t["hist"]]
    cut = rng.randrange(len(les) + 1) if rng.random() < 0.5 else 0
    if not any(x[0] == "line" for x in les[:cut]):      # a model without any line starts nowhere
        cut = 0
    yield {"u": 1, "steps": [["bassModel", {"m": "M", "learn": x, "twice": rng.randrange(2), "rhythm": rng.randrange(2)}]
                             for x in (les[:cut], les[cut:]) if x]}


def beatsTest(t, rng):
    yield {"u": t["u"], "steps": [["bassBeats", {"on": t["on"], "dur": t["dur"]}]], "ints": rng.random() < 0.5}
