# encoding: utf-8
"""The bass line model (C24, C25). CPython only: bassmine needs numpy."""
from __future__ import absolute_import, division, print_function

import json
import os
import random
import shutil

from driver import op, scratch, gsio, gspattern
from ops_style import seedOf, frac

import numpy as np
from gsapi import bassmine


class Here(object):
    """runs in a scratch folder: models are written to output/"""
    def __enter__(self):
        self.old = os.getcwd()
        d = scratch("bass")
        if not os.path.isdir(os.path.join(d, "output")):
            os.mkdir(os.path.join(d, "output"))
        os.chdir(d)
        return d

    def __exit__(self, *x):
        os.chdir(self.old)


def vec(c, v):
    r = []
    for i, p in enumerate(v):
        if p != 0:
            n, d = frac(c, p)
            r.append({"x": i, "n": n, "d": d})
    return r


def mat(c, m):
    r = []
    for i, row in enumerate(m):
        for e in vec(c, row):
            r.append(dict(e, r=i))
    return r


def rows(c, d, shift=0, what="pattern"):
    """{state: {pattern, probs}} as entries, sorted"""
    r = []
    for k in d:
        if len(d[k][what]) != len(d[k]["probs"]):
            c.inx = 1
        for y, p in zip(d[k][what], d[k]["probs"]):
            n, q = frac(c, p)
            r.append({"r": c.integer(k) + shift, "x": c.integer(y) + shift, "n": n, "d": q})
    return sorted(r, key=lambda e: (e["r"], e["x"]))


def sparse(x):
    if isinstance(x, dict):
        return [[int(k), int(v)] for k in sorted(x) for v in sorted(x[k], key=int)]
    return [int(v) for v in sorted(x, key=int)]


def plain(x):
    """as JSON gives it back"""
    return json.loads(json.dumps(x))


def model(c, a):
    name = "bass:" + a["m"]
    if name not in c.obj:
        size = a.get("size", 16)
        c.obj[name] = {"m": bassmine.MarkovModel(tuple(size) if isinstance(size, list) else size), "lines": [], "pairs": []}
    return c.obj[name]


def learn(c, o, what):
    for kind, x in what:
        if kind == "line":
            o["m"].add_temporal(np.array(x, dtype=int) if len(x) % 3 == 2 else list(x))
            o["lines"].append(list(x))
        elif kind == "pair":
            o["m"].add_interlocking(list(x[0]), list(x[1]))
            o["pairs"].append({"kick": list(x[0]), "bass": list(x[1])})
        elif kind == "norm" and o["lines"]:
            o["m"].normalize_model()


def snapshot(m):
    return [np.array(x).tolist() for x in (m.support_initial, m.support_temporal, m.support_interlocking, m.initial_model, m.temporal_model,
                                           m.interlocking_model)]


def describe(c, o, rhythm, pitch=False, size=16):
    m = o["m"]
    r = {"initial": vec(c, m.get_initial()), "temporal": mat(c, m.get_temporal()), "together": mat(c, m.get_interlocking()),
         "sInitial": sparse(bassmine.markov_tm_2dict(m.get_initial())), "sTemporal": sparse(bassmine.markov_tm_2dict(m.get_temporal())),
         "sTogether": sparse(bassmine.markov_tm_2dict(m.get_interlocking())), "rhythm": 1 if rhythm else 0, "files": 1,
         "mInitial": [], "mTemporal": []}
    r["shape"] = 1 if (len(m.get_initial()) == size and np.array(m.get_temporal()).shape == (size, size) and
                       np.array(m.get_interlocking()).shape == (size, size)) else 0
    r["mPitch"], r["pitch"] = [], 0
    if pitch:
        r["mPitch"], r["pitch"] = rows(c, m.pitch_model(), 12, "interval"), 1
    if rhythm:
        with Here() as d:
            first, then = m.rhythm_model()
            with open("output/HModel.json") as f:
                a = json.load(f)
            with open("output/HModel_init.json") as f:
                b = json.load(f)
        r["files"] = 1 if a == plain(then) and b == plain(first) else 0
        ini = first["initial"]
        r["mInitial"] = sorted([dict(zip("nd", frac(c, p)), x=c.integer(x)) for x, p in zip(ini["pattern"], ini["prob"])], key=lambda e: e["x"])
        if len(ini["pattern"]) != len(ini["prob"]):
            c.inx = 1
        r["mTemporal"] = rows(c, then)
    return r


@op
def op_bassModel(c, a, L):
    """learns, normalizes and reads the model"""
    o = model(c, a)
    learn(c, o, a["learn"])
    o["m"].normalize_model()
    if a.get("twice"):
        o["m"].normalize_model()
    L.a = {"lines": o["lines"], "pairs": o["pairs"]}
    size = a.get("size", 16)
    L.rv = describe(c, o, a.get("rhythm") and any(len(x) > 1 for x in o["lines"]), a.get("pitch"), size[0] if isinstance(size, list) else size)


@op
def op_bassBeats(c, a, L):
    on = [c.beats(x) for x in a["on"]]
    bits = bassmine.binaryBeatPattern(on, c.beats(a["dur"]))
    ids = bassmine.translate_rhythm(bits)
    L.a = {"on": a["on"], "dur": a["dur"]}
    L.rv = {"ids": [c.integer(x) for x in ids], "bits": [[c.integer(x) for x in b] for b in bits]}
    json.dumps(ids)


@op
def op_bassDictionary(c, a, L):
    with Here():
        d = bassmine.createMarkovGenerationDictionary(toJSON=True)
        with open("output/pattern_dict.json") as f:
            j = json.load(f)
    p = d["patterns"]
    L.rv = {"on": [[c.integer(x * 4) for x in p[k]] for k in sorted(p)], "file": 1 if j == plain(d) else 0}


def fails(f):
    """what was raised is part of the result: constraints may have no solution"""
    def g(c, a, L):
        try:
            f(c, a, L)
            L.rv["raised"] = ""
        except Exception as e:  # noqa
            L.rv = {"raised": type(e).__name__}
    g.__name__ = f.__name__
    return g


def kickPattern(c, target, cut=0):
    """beats as a pattern, which ends up to `cut` quarters of its last beat earlier, after its last event began"""
    p = gspattern.Pattern()
    for b, x in enumerate(target):
        for q in range(4):
            if x & (8 >> q):
                p.events.append(gspattern.Event(b + q / 4.0, 0.25, 36, 100, "Kick"))
    while cut and target[-1] & ((1 << cut) - 1):
        cut -= 1
    p.duration = len(target) - cut / 4.0 if cut else len(target)
    return p


@op
@fails
def op_bassConstrain(c, a, L):
    o = model(c, a)
    learn(c, o, a["learn"])
    o["m"].normalize_model()
    before = snapshot(o["m"])
    L.a = {"lines": o["lines"], "pairs": o["pairs"], "target": a["target"]}
    with Here():
        first, then = bassmine.constrainMM(o["m"], kickPattern(c, a["target"], a.get("cut", 0)))
        with open("output/NHModel.json") as f:
            x = json.load(f)
        with open("output/Model_init.json") as f:
            y = json.load(f)
    ini = first["initial"]
    L.rv = {"initial": [dict(zip("nd", frac(c, p)), x=c.integer(s)) for s, p in zip(ini["pattern"], ini["prob"])],
            "model": [rows(c, then[k]) for k in sorted(then)], "files": 1 if x == plain(then) and y == plain(first) else 0,
            "same": 1 if before == snapshot(o["m"]) else 0}


@op
@fails
def op_bassVary(c, a, L):
    o = model(c, a)
    learn(c, o, a["learn"])
    o["m"].normalize_model()
    before = snapshot(o["m"])
    mask = list(a["mask"])
    L.a = {"lines": o["lines"], "pairs": o["pairs"], "mask": a["mask"]}
    with Here():
        first, then = bassmine.variationMM(o["m"], mask)
        with open("output/NHModel_var.json") as f:
            x = json.load(f)
        with open("output/Model_init_var.json") as f:
            y = json.load(f)
    L.rv = {"first": c.integer(first["initial"]["pattern"]), "model": [rows(c, then[k]) for k in sorted(then)],
            "files": 1 if x == plain(then) and y == plain(first) else 0, "same": 1 if before == snapshot(o["m"]) and mask == a["mask"] else 0}


def beats(c, p):
    """the numbers of the beats of a generated line, and whether its notes are where they must be"""
    n = int(p.duration)
    ids, ok = [0] * n, n == p.duration
    for e in p.events:
        q = e.startTime * 4
        ok = ok and q == int(q) and 0 <= q < 4 * n and e.duration == 0.25 and e.pitch == 36 and e.velocity == 110 and e.tag == "bass"
        if not ok:
            break
        bit = 8 >> (int(q) % 4)
        ok = ok and not ids[int(q) // 4] & bit
        ids[int(q) // 4] |= bit
    return ids, ok


@op
@fails
def op_bassGenerate(c, a, L):
    o = model(c, a)
    learn(c, o, a["learn"])
    o["m"].normalize_model()
    m = o["m"]
    before = snapshot(m)
    counts, ok = {}, True
    L.a = {"lines": o["lines"], "pairs": o["pairs"], "kind": a["kind"], "len": a["len"], "target": a.get("target", []), "mask": a.get("mask", [])}
    with Here():
        for i in range(a["runs"]):
            np.random.seed(seedOf(a["seed"] + i) % (1 << 32))
            if a["kind"] == "kick":
                other = getattr(bassmine, "_generateBassRhythm", None)
                if a.get("given") and other and i % 2:      # from a constrained model that is given
                    p = other(bassmine.constrainMM(m, kickPattern(c, a["target"], a.get("cut", 0))), min(a["len"], len(a["target"])))
                else:
                    p = bassmine.generateBassRhythm(m, a["len"], kickPattern(c, a["target"], a.get("cut", 0)))
            elif a["kind"] == "keep":
                line = kickPattern(c, a["line"], a.get("cut", 0))
                p = bassmine.generateBassRhythmVariation(m, line, [1 if x >= 0 else -1 for x in a["mask"]] + [1] * a.get("longer", 0))
            else:
                p = bassmine.generateBassRhythm(m, a["len"])
            h, good = beats(c, p)
            ok = ok and good
            counts.setdefault(repr(h), [h, 0])[1] += 1
    L.rv = {"ok": 1 if ok else 0, "hist": [{"h": x[0], "c": x[1]} for x in sorted(counts.values(), key=repr)],
            "same": 1 if before == snapshot(m) else 0}


@op
def op_bassCorpus(c, a, L):
    """learns from MIDI files whose names match"""
    lines, pairs = [], []
    with Here() as d:
        if a.get("folder"):
            import gsapi
            base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(gsapi.__file__))), "examples", "corpora", "bassmine", a["folder"])
            bass, drums = os.path.join(base, "bass"), os.path.join(base, "drums")
        else:
            bass, drums = os.path.join(d, "bass"), os.path.join(d, "drums")
            for f in (bass, drums):
                shutil.rmtree(f, ignore_errors=True)
                os.mkdir(f)
            for name, b, k in a["songs"]:
                for folder, what, ids, pitch in ((bass, "bass_", b, 40), (drums, "drums_", k, 36)):
                    p = kickPattern(c, ids)
                    for e in p.events:
                        e.pitch = pitch
                    for j in range(len(ids)):          # other drums
                        if folder == drums:
                            p.events.append(gspattern.Event(j + 0.5, 0.25, 42, 80, "hat"))
                    p.events.append(gspattern.Event(len(ids) - 0.25, 0.25, 50, 80, "end"))
                    if folder == bass:
                        p.events.pop()
                    write(p, os.path.join(folder, what + name + ".mid"))
        m, kicks = bassmine.corpus_analysis(bass, drums)
        kicks = [quarters(k) for k in kicks]
        for f in sorted(os.listdir(bass)):
            if not f.endswith(".mid"):
                continue
            k = "drums" + f[4:]
            x = gsio.fromMidiFile(os.path.join(bass, f), "pitchName", tagFromTrackName=False)
            y = gsio.fromMidiFile(os.path.join(drums, k), {"Kick": 36}, tagFromTrackName=False)
            b, q = quarters(x), quarters(y)
            lines.append(b)
            pairs.append({"kick": q, "bass": b})
    m.normalize_model()
    L.a = {"lines": lines, "pairs": pairs}
    L.rv = describe(c, {"m": m}, True)
    L.rv["kicks"] = kicks


@op
def op_bassDraw(c, a, L):
    """draws from a list of probabilities"""
    total = float(sum(a["w"]))
    ps = [w / total for w in a["w"]]
    if a.get("array"):
        ps = np.array(ps)
    counts = [0] * len(ps)
    random.seed(seedOf(a["seed"]))
    for i in range(a["runs"]):
        counts[int(bassmine.pdf_sampling(ps))] += 1
    L.a = {"w": a["w"], "runs": a["runs"]}
    L.rv = {"counts": counts}


def write(p, path):
    """a MIDI file of one track with the notes of a pattern, 480 ticks in a beat"""
    from gens_midi import encode, END
    ev = sorted([(int(round(e.startTime * 480)), 1, e.pitch) for e in p.events] +
                [(int(round((e.startTime + e.duration) * 480)), 0, e.pitch) for e in p.events])
    t, last = [], 0
    for at, on, pitch in ev:
        t.append((at - last, 0x90 if on else 0x80, 0, [pitch, 100 if on else 0]))
        last = at
    t.append(END)
    with open(path, "wb") as f:
        f.write(bytes(bytearray(encode(0, 480, [t]))))


def quarters(p):
    """the beats of a pattern, from their definition"""
    n = int(np.ceil(p.duration))
    r = [0] * n
    for e in p.events:
        b, o = divmod(e.startTime, 1)
        if e.startTime < p.duration:
            r[int(b)] |= 8 >> min(range(4), key=lambda q: (abs(o - q / 4.0), q))
    return r
