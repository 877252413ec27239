# encoding: utf-8
"""Descriptors, viewpoints and the chordify transformer (C17 to C19)."""
from __future__ import absolute_import, division, print_function

from driver import op, encPattern, ct, tagIn, txt, scratch, gsdataset, gsdescriptors, gstransformers, gsdefs, gsutil, integers


def conds(x, none, single):
    """included or ignored tags, as the code and as the specification take them"""
    if x is None:
        return None, {"kind": none, "q": ["s:silence"] if none == "list" else []}
    if isinstance(x, dict):
        q = [tagIn(y) for y in x["fn"]]
        return (lambda t: t in q), {"kind": "list", "q": [ct(y) for y in q]}
    if isinstance(x, list):
        q = [tagIn(y) for y in x]
        return q, {"kind": "list", "q": [ct(y) for y in q]}
    return tagIn(x), {"kind": single, "q": [ct(tagIn(x))]}


def descriptor(c, d):
    """the descriptor object (the same each time for the same name) and its parameters for the specification"""
    name = "desc:%s" % d.get("obj", "")
    ign, si = conds(d.get("ign"), "list", "loose")
    inc, sc = conds(d.get("inc"), "none", "exact")
    spec = {"k": d["k"], "ign": si, "inc": sc, "force": 1 if d.get("force") else 0, "dup": 1 if d.get("dup") else 0}
    if d.get("obj") and name in c.obj:
        return c.obj[name], spec
    k = d["k"]
    if k in ("density", "tags"):
        cls = gsdescriptors.Density if k == "density" else gsdescriptors.NumberOfTags
        kw = {}
        if d.get("ign") is not None:
            kw["ignoredTags"] = ign
        if d.get("inc") is not None:
            kw["includedTags"] = inc
        r = cls(**kw)
    elif k == "sync":
        r = gsdescriptors.Syncopation()
    else:
        kw = {}
        if d.get("force"):
            kw["forceMajMin"] = True
        if d.get("dup"):
            kw["allowDuplicates"] = True
        r = gsdescriptors.Chord(**kw)
    if d.get("obj"):
        c.obj[name] = r
    return r, spec


def chord(c, x):
    if isinstance(x, tuple) and len(x) == 2 and x[0] in gsdefs.defaultPitchNames:
        return {"r": gsdefs.defaultPitchNames.index(x[0]), "t": x[1]}
    c.inx = 1
    return {"r": -1, "t": txt(x)}


def value(c, k, x):
    r = {"x": 0, "ch": [], "sil": 0}
    if k == "density":
        r["x"] = c.ticks(x)
    elif k in ("tags", "sync"):
        r["x"] = c.integer(x)
    elif x == "silence":
        r["sil"] = 1
    else:
        r["ch"] = [chord(c, y) for y in x] if isinstance(x, list) else [chord(c, x)]
    return r


@op
def op_describe(c, a, L):
    d, L.a = descriptor(c, a["d"])
    r = d.getDescriptorForPattern(c.regs[a["p"]])
    L.rv = value(c, L.a["k"], r)


@op
def op_drumSpace(c, a, L):
    from gsapi import gsextractors
    s = c.obj.setdefault("drums", gsextractors.DensityDrumSpace())
    r = s.getFeatureSpace(c.regs[a["p"]])
    L.rv = {"n": c.integer(r["numberOfInstruments"]), "lo": c.ticks(r["loD"]), "mid": c.ticks(r["midD"]),
            "hi": c.ticks(r["hiD"]), "keys": len(r)}


def datasetOf(ps):
    """a dataset of these patterns, for which no file is read"""
    ds = gsdataset.Dataset(midiFolder=scratch("nothing"))
    ds.patterns = list(ps)
    return ds


@op
def op_viewpoint(c, a, L):
    p = c.regs[a["p"]]
    others = dict(p.viewpoints)
    before = dict((k, encPattern(c, v)) for k, v in others.items())
    kw = {}
    if a.get("default"):
        spec = {"k": "chord", "ign": {"kind": "list", "q": ["s:silence"]}, "inc": {"kind": "none", "q": []}, "force": 0, "dup": 0}
        how, name = 4, "chords"
        if a.get("via"):
            datasetOf([p]).generateViewpoint("chords")
            r = p.viewpoints["chords"]
        else:
            r = p.generateViewpoint("chords")
    else:
        d, spec = descriptor(c, a["d"])
        how, name = a["how"], tagIn(a["name"])
        if a.get("via"):
            datasetOf([p]).generateViewpoint(name, descriptor=d, sliceType=how)
            r = p.viewpoints[name]
        else:
            r = p.generateViewpoint(name, descriptor=d, sliceType=how)
    L.a = {"d": spec, "how": "step" if isinstance(how, integers) else how,
           "len": how * c.u if isinstance(how, integers) else 0, "nm": txt(name)}
    evs = []
    for e in r.events:
        o = e.originPattern
        evs.append({"s": c.ticks(e.startTime), "d": c.ticks(e.duration), "val": value(c, spec["k"], e.tag),
                    "sub": encPattern(c, o), "self": 1 if o is p else 0})
    L.rv = {"ev": evs, "stored": 1 if p.viewpoints.get(name) is r else 0, "par": 1 if r.originPattern is p else 0,
            "dur": c.ticks(r.duration), "m": txt(r.bpm) + "|" + txt(r.timeSignature), "nm": txt(r.name),
            "others": 1 if all(p.viewpoints.get(k) is v and encPattern(c, v) == before[k] for k, v in others.items() if k != name)
            and set(p.viewpoints) == set(others) | set([name]) else 0}
    if "q" in a:
        c.regs[a["q"]] = r


@op
def op_splitViewpoint(c, a, L):
    p = c.regs[a["p"]]
    v = p.viewpoints[tagIn(a["name"])]
    L.pre = encPattern(c, v)
    L.a = {"len": a["len"], "copy": 1, "sup": 1}
    if a.get("via"):
        res = datasetOf([p]).getAllSliceOfDuration(c.beats(a["len"]), viewpointName=tagIn(a["name"]))
    else:
        res = p.splitInEqualLengthPatterns(c.beats(a["len"]), viewpointName=tagIn(a["name"]))
    L.rp = [encPattern(c, x) for x in res]
    L.rv = {"post": encPattern(c, v)}


@op
def op_chordify(c, a, L):
    r = gstransformers.Chordify(c.regs[a["p"]])
    L.rv = {"ev": [{"s": c.ticks(e.startTime), "d": c.ticks(e.duration), "tc": [ct(x) for x in e.tag],
                    "cmp": [[c.integer(x[0]), c.integer(x[1])] for x in e.components]} for e in r.events],
            "n": r.numChords, "dur": c.ticks(r.duration)}


@op
def op_pitchNames(c, a, L):
    """the utilities on pitches"""
    L.a = {"x": a["x"]}
    L.rv = {"n": gsutil.pitch2name(a["x"], gsdefs.defaultPitchNames)}
