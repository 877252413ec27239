"""Seeded generators of histories of descriptors and viewpoints (C17 to C19)."""
import gens as G

DRUMS = ["Kick", "snare", "closed hihat", "shaker", "rimshot", "hiconga", "low Congas", "clave", "silence", "Snare"]
TRIADS = [[0, 4, 7], [0, 3, 7], [0, 4, 8], [0, 3, 6], [0, 5, 7], [0, 2, 7], [0, 7], [0, 4], [0, 3], [0, 6], [0],
          [0, 4, 7, 10], [0, 4, 7, 11], [0, 3, 7, 10], [0, 3, 7, 11], [0, 3, 6, 10], [0, 3, 6, 9], [0, 4, 7, 9],
          [0, 3, 7, 9], [0, 2, 4, 7], [0, 2, 3, 7], [0, 5, 7, 10], [0, 4, 5, 7], [0, 3, 5, 7], [0, 2, 4, 7, 10],
          [0, 1, 4, 7, 10], [0, 2, 4, 7, 11], [0, 2, 3, 7, 10], [0, 2, 4, 5, 7, 10], [0, 2, 4, 5, 7, 11],
          [0, 2, 3, 5, 7, 10], [0, 2, 4, 5, 7, 9, 10]]


def tagsOf(s, rng):
    return list(s.tags) + rng.choice([[], ["silence"], ["other"]])


def someDesc(s, rng, kinds, k):
    kind = rng.choice(kinds)
    d = {"k": kind}
    if rng.random() < 0.7:
        d["obj"] = "%s%d" % (kind, k)
    t = tagsOf(s, rng)
    if kind in ("density", "tags"):
        for f in ("ign", "inc"):
            if rng.random() < 0.4:
                x = rng.sample(t, min(len(t), rng.choice([1, 1, 2, 3])))
                d[f] = rng.choice([x, x, {"fn": x}, x[0] if not isinstance(x[0], list) and x[0] != "" else x])
    elif kind == "chord":
        if rng.random() < 0.3:
            d["force"] = 1
        if rng.random() < 0.3:
            d["dup"] = 1
    return d


def chordEvents(s, rng):
    """chords, arpeggios, with octaves, passing notes and silences"""
    evs, t = [], 0
    for _ in range(rng.choice([1, 1, 2, 3])):
        root = rng.randrange(12)
        arp = rng.random() < 0.4
        same = rng.random() < 0.5
        d = s.d()
        for x in rng.choice(TRIADS):
            if rng.random() < 0.1:
                continue
            e = [t, d if same else s.d(), root + x + 12 * rng.choice([3, 4, 5, 5, 6]), rng.choice(s.vels), rng.choice(s.tags)]
            evs.append(e)
            if rng.random() < 0.15:
                evs.append([e[0], e[1], e[2] + 12, e[3], e[4]])
            if arp:
                t += e[1]
        if rng.random() < 0.2:
            evs.append([t, s.d(), rng.randrange(36, 84), 90, rng.choice(s.tags + ["silence"])])
        t += rng.choice([0, d, 2 * d])
    if rng.random() < 0.2:
        evs.append([t, s.d(), rng.randrange(36, 84), 0, "silence"])
    if s.order == "shuffled":
        rng.shuffle(evs)
    return evs


def sources(s, rng, chords):
    st = s.new(evs=chordEvents(s, rng) if rng.random() < chords else None)
    if rng.random() < 0.15:                 # silences among the events
        for e in st[1]["ev"]:
            if rng.random() < 0.4:
                e[4] = "silence"
    return st


def metrical(rng):
    """rhythms on steps of a beat, to measure their syncopation, with durations of all kinds"""
    s = G.Space(rng, big=False, grid=rng.choice([(1, 1), (2, 1), (4, 1), (4, 2), (2, 2), (64, 1)]), tags=[["a", "b", "Kick"], ["x"]][rng.randrange(2)])
    n = rng.choice([1, 2, 3, 4, 4, 8, 8, 8, 16, 16, 16, 16, 32, 6, 12, 24, 5, 7])
    evs = []
    for i in range(n):
        if rng.random() < rng.choice([0.2, 0.4, 0.6]):
            t = i * s.u + (rng.choice([0, 0, 0, 1]) if s.u > 1 else 0)
            d = rng.choice([s.u, s.u, s.u, 2 * s.u, max(1, s.u // 2)])
            if t + d <= n * s.u:
                evs.append([t, d, rng.choice(s.pitches), 100, rng.choice(s.tags)])
    if rng.random() < 0.3:
        rng.shuffle(evs)
    dur = n * s.u
    if rng.random() < 0.15 and s.u > 1:
        last = max([e[0] + e[1] for e in evs] + [0])
        dur = max(last, dur - 1)
    elif rng.random() < 0.2 and s.u > 1:   # a last step that is barely there
        evs = [e for e in evs if e[0] + e[1] <= (n - 1) * s.u]
        dur = (n - 1) * s.u + 1
    return s, ["new", {"p": "A", "dur": dur, "ev": evs}]


def descriptors(rng, i=0):
    """the same descriptors used for several patterns, of different lengths, one after another"""
    steps = []
    kinds = rng.choice([["density", "tags"], ["sync"], ["sync", "density", "tags"], ["density", "tags", "sync", "chord"]])
    s = None
    descs = None
    u = None
    for j in range(rng.choice([1, 2, 3, 4])):
        if kinds[0] == "sync":
            while True:
                s, st = metrical(rng)
                if u is None or s.u == u:
                    break
        else:
            while True:
                s = G.Space(rng, tags=[t for t in [DRUMS] if rng.random() < 0.3][0:1] and DRUMS or None)
                if u is None or s.u == u:
                    break
            st = sources(s, rng, 0.1)
        u = s.u
        name = rng.choice("AB") if j else "A"
        st[1]["p"] = name
        steps.append(st)
        if rng.random() < 0.2 and s.u & (s.u - 1) == 0:   # a window, whose last events may last longer than it does
            steps.append(["window", {"p": name, "q": name, "s": s.t(), "len": s.d() + s.g, "trim": rng.randrange(2)}])
        if descs is None:
            descs = [someDesc(s, rng, kinds, i) for i in range(rng.choice([1, 2, 3]))]
        for _ in range(rng.choice([1, 2, 3])):
            steps.append(["describe", {"p": name, "d": rng.choice(descs)}])
            if rng.random() < 0.15:
                steps.append(["drumSpace", {"p": name}])
            if rng.random() < 0.2:
                x = rng.randrange(4)
                if x == 0:
                    steps.append(["transpose", {"p": name, "n": rng.choice([1, 5, 12])}])
                elif x == 1:
                    steps.append(["addEvent", {"p": name, "e": s.ev()}])
                elif x == 2:
                    steps.append(["delEvent", {"p": name, "i": rng.randrange(9)}])
                else:
                    steps.append(["stretch", {"p": name, "num": 2, "den": 1}])
    return s.prog(steps)


def chords(rng, i=0):
    s = G.Space(rng, big=False, dyadic=rng.random() < 0.8, tags=rng.choice([None, [["C"], "a", "b", "silence"]]))
    s.maxd = rng.choice([1, 2, 4])
    st = sources(s, rng, 0.85)
    steps = [st]
    if rng.random() < 0.15:
        st[1]["dur"] += rng.choice([1, 4, 16]) * s.u
    for i in range(rng.choice([1, 2, 3])):
        d = someDesc(s, rng, ["chord"], 0)
        if rng.random() < 0.4:
            d["obj"] = "c%d%d" % (d.get("force", 0), d.get("dup", 0))
        elif "obj" in d:
            del d["obj"]
        steps.append(["describe", {"p": "A", "d": d}])
        x = rng.randrange(5)
        if x == 0:
            steps.append(["transpose", {"p": "A", "n": rng.choice([1, -1, 5, 7, 12, -12])}])
        elif x == 1:
            steps.append(["stretch", {"p": "A", "num": rng.choice([2, 4]), "den": 1}])
        elif x == 2:
            steps.append(["reorder", {"p": "A"}])
        elif x == 3 and s.u > 0:
            steps.append(["fillSil", {"p": "A", "per": 0, "max": 0}])
    return s.prog(steps)


def viewpoints(rng, i=0):
    s = G.Space(rng, dyadic=rng.random() < 0.75, big=False)
    if s.h > 16:
        s.h = 16
    st = sources(s, rng, 0.4)
    if st[1].get("st"):
        del st[1]["st"]
    steps = [st]
    names = ["chords", "density", "n", "s", ("x" if rng.random() < 0.5 else "density")]
    made, descs = [], []
    for i in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.1:
            steps.append(["viewpoint", {"p": "A", "default": 1}])
            made.append("chords")
        else:
            name = rng.choice(names)
            kind = rng.choice(["density", "tags", "sync", "chord"])
            d = someDesc(s, rng, [kind], i)
            d.pop("dup", None)
            d = rng.choice([d, d] + descs)
            descs.append(d)
            steps.append(["viewpoint", {"p": "A", "name": name, "d": d, "how": rng.choice([1, 2, 4, 3, "perEvent", "perEvent", "all"])}])
            made.append(name)
        if rng.random() < 0.25:
            steps[-1][1]["via"] = 1
        if rng.random() < 0.2:
            steps.append(["splitViewpoint", {"p": "A", "name": rng.choice(made), "len": rng.choice([1, 2, 4]) * s.u, "via": rng.randrange(2)}])
        if rng.random() < 0.25:
            x = rng.randrange(3)
            steps.append([["transpose", {"p": "A", "n": 1}], ["addEvent", {"p": "A", "e": s.ev()}],
                          ["stretch", {"p": "A", "num": 2, "den": 1}]][x])
    return s.prog(steps)


def chordifies(rng, i=0):
    s = G.Space(rng, big=False)
    st = sources(s, rng, 0.4)
    return s.prog([st] + ([["reorder", {"p": "A"}]] if rng.random() < 0.5 else []) + [["chordify", {"p": "A"}]])


def pitchNames(rng, i=0):
    return {"u": 1, "steps": [["new", {"p": "A", "dur": 1, "ev": []}]] + [["pitchNames", {"p": "A", "x": rng.randrange(0, 128)}] for _ in range(8)]}
