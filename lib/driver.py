# encoding: utf-8
"""Runs programs (histories of operations) on the real code and logs what it does.

    jython|python driver.py PROGRAMS OUT [REPO]

Works under Python 2.7 (Jython) and Python 3. PROGRAMS has one JSON program per
line, OUT gets one JSON line per step: operation, arguments, abstract state
before and after, result or exception. It never judges anything: that is left to
the specification (spec/Trace.tla).
"""
from __future__ import absolute_import, division, print_function

import json
import logging
import os
import random
import sys
import types

sys.dont_write_bytecode = True
PY2 = sys.version_info[0] == 2
REPO = sys.argv[3] if len(sys.argv) > 3 else "/repo"
BIG = 99999999


class LeaveOutBassmine(object):
    """under Jython there is no numpy, which only bassmine needs"""
    def find_module(self, name, path=None):
        return self if name == "gsapi.bassmine" else None

    def load_module(self, name):
        module = sys.modules.setdefault(name, types.ModuleType(name))
        module.__file__ = "<left out>"
        module.__loader__ = self
        return module


if PY2:
    sys.meta_path.insert(0, LeaveOutBassmine())
sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)

from gsapi import gspattern, gsio, midiio, gsdescriptors, gsstyles, gstransformers, gsdefs, gsutil, gsdataset  # noqa
if not PY2:
    from gsapi import bassmine

if PY2:
    text_type, integers = unicode, (int, long)  # noqa
else:
    text_type, integers = str, (int,)


# ---------------------------------------------------------------- encoding

class Ctx(object):
    """what a program works on"""
    def __init__(self, prog):
        self.u = prog.get("u", 15360)
        self.ints = prog.get("ints", False)
        self.regs = {}
        self.inx = 0
        self.ids = {}
        self.keep = []
        self.obj = {}
        self.heap = False

    def oid(self, e):
        if id(e) not in self.ids:
            self.ids[id(e)] = len(self.ids) + 1
            self.keep.append(e)
        return self.ids[id(e)]

    # numbers of the program -> numbers given to the code
    def beats(self, n):
        if self.ints and n % self.u == 0:
            return n // self.u
        return n / float(self.u)

    # numbers of the code -> integers
    def ticks(self, x, u=None):
        try:
            n = float(x) * (u or self.u)
            r = int(round(n))
        except (TypeError, ValueError, OverflowError):
            self.inx = 1
            return BIG
        if abs(n - r) > 1e-6 * max(1, abs(n) * 1e-3) or isinstance(x, bool):
            self.inx = 1
        if abs(r) > BIG:
            self.inx = 1
            return BIG
        return r

    def integer(self, x):
        try:
            r = int(x)
            ok = r == x and not isinstance(x, bool) and abs(r) <= BIG
        except (TypeError, ValueError, OverflowError):
            ok = False
        if not ok:
            self.inx = 1
            return BIG
        return r


def ct(tag):
    """canonical text of a tag: equal tags have equal texts"""
    if isinstance(tag, tuple):
        return "t:(" + ",".join(ct(x) for x in tag) + ")"
    if isinstance(tag, list):
        return "l:[" + ",".join(ct(x) for x in tag) + "]"
    if isinstance(tag, (str, text_type)):
        return "s:" + tag
    if isinstance(tag, bool):
        return "b:%r" % tag
    if isinstance(tag, integers):
        return "i:%d" % tag
    if isinstance(tag, float):
        return "i:%d" % int(tag) if tag == int(tag) else "f:%r" % tag
    if tag is None:
        return "none"
    return "o:%s" % type(tag).__name__


def tagIn(x):
    """tag as written in a program -> tag given to the code (lists are tuples)"""
    if isinstance(x, list):
        return tuple(tagIn(e) for e in x)
    if isinstance(x, text_type) and PY2:
        try:
            return str(x)
        except UnicodeError:
            return x
    return x


def txt(x):
    """any value as text, equal values giving equal texts"""
    if x is None:
        return "none"
    if isinstance(x, (str, text_type)):
        return "s:" + x
    if isinstance(x, bool):
        return "b:%r" % x
    if isinstance(x, integers):
        return "n:%d" % x
    if isinstance(x, float):
        return "n:%d" % int(x) if x == int(x) else "f:%.9g" % x
    if isinstance(x, (tuple, list)):
        return "(" + ",".join(txt(e) for e in x) + ")"
    return "o:%s" % type(x).__name__


def encEvent(c, e):
    r = {"s": c.ticks(e.startTime), "d": c.ticks(e.duration), "p": c.integer(e.pitch),
         "v": c.integer(e.velocity), "t": ct(e.tag),
         "tc": [ct(x) for x in e.tag] if isinstance(e.tag, tuple) else []}
    if c.heap and e.originPattern is not None and own(c, e.originPattern):
        # the slice that it describes, part of it
        o = e.originPattern
        r["o"] = txt([[f.startTime, f.duration, f.pitch, f.velocity, ct(f.tag)] for f in o.events] + [o.duration, o.bpm])
    return r


def own(c, o):
    """is it a pattern that has its own events, not a pattern under test nor a view of its events?"""
    rs = list(c.regs.values())
    return not any(o is r for r in rs) and not any(e is f for r in rs for e in r.events for f in o.events)


NIL = {"nil": 1, "ev": [], "ids": [], "dur": 0, "st": 0, "m": "", "x": "", "nm": "", "vp": []}


def encPattern(c, p, vp=False):
    if p is None:
        return NIL
    r = {"nil": 0, "ev": [encEvent(c, e) for e in p.events], "ids": [c.oid(e) for e in p.events],
         "dur": c.ticks(p.duration), "st": c.ticks(p.startTime),
         "m": txt(p.bpm) + "|" + txt(p.timeSignature),
         "x": "|".join([txt(p.key), txt(p.resolution), txt(p.originFilePath)]),
         "nm": txt(p.name), "vp": []}
    if vp or c.heap:
        for k in sorted(p.viewpoints):
            v = p.viewpoints[k]
            if c.heap and any(v is r for r in c.regs.values()):
                continue
            r["vp"].append({"key": txt(k), "par": 1 if v.originPattern is p else 0,
                            "pat": encPattern(c, v, True)})
    return r


def mkEvent(c, x):
    return gspattern.Event(c.beats(x[0]), c.beats(x[1]), x[2], x[3], tagIn(x[4]))


OPS = {}


def op(f):
    OPS[f.__name__[3:]] = f
    return f


class Line(object):
    """what one step logs"""
    def __init__(self):
        self.a, self.rv, self.rp, self.of, self.vp = {"_": 0}, {"_": 0}, [], None, False


# ---------------------------------------------------------------- patterns

@op
def op_new(c, a, L):
    p = gspattern.Pattern(c.beats(a["dur"]), [mkEvent(c, e) for e in a["ev"]], bpm=a.get("bpm", 120),
                          timeSignature=a.get("tsl") or tuple(a.get("ts", (4, 4))), key=a.get("key"),
                          name=tagIn(a.get("name")))
    if "res" in a:
        p.resolution = a["res"]
    if "st" in a:
        p.startTime = c.beats(a["st"])
    if "fp" in a:
        p.originFilePath = a["fp"]
    c.regs[a["p"]] = p
    L.a = {"ev": [encEvent(c, mkEvent(c, e)) for e in a["ev"]], "dur": a["dur"]}


@op
def op_addEvent(c, a, L):
    e = mkEvent(c, a["e"])
    L.a = {"e": encEvent(c, e)}
    c.regs[a["p"]].addEvent(e)


@op
def op_lastNoteOff(c, a, L):
    x = c.regs[a["p"]].lastNoteOff()
    L.rv = {"none": 1, "x": 0} if x is None else {"none": 0, "x": c.ticks(x)}


@op
def op_durToLast(c, a, L):
    L.a = {"only": a["only"]}
    if a["only"]:
        c.regs[a["p"]].durationToLastEvent()
    else:
        c.regs[a["p"]].durationToLastEvent(onlyIfBigger=False)


@op
def op_durToBar(c, a, L):
    p = c.regs[a["p"]]
    L.a = {"bar": c.ticks(p.timeSignature[0])}
    p.durationToBar()


@op
def op_setDur(c, a, L):
    L.a = {"x": a["x"]}
    c.regs[a["p"]].duration = c.beats(a["x"])


@op
def op_split(c, a, L):
    L.a = {"len": a["len"], "copy": a["copy"], "sup": a["sup"]}
    src = c.regs[a["p"]]
    if a.get("vp"):
        res = src.splitInEqualLengthPatterns(c.beats(a["len"]), viewpointName=a["vp"])
    else:
        res = src.splitInEqualLengthPatterns(c.beats(a["len"]), makeCopy=bool(a["copy"]),
                                             supressEmptyPattern=bool(a["sup"]))
    L.rp = [encPattern(c, x) for x in res]
    for i, x in enumerate(res):
        if "q" in a and i < len(a["q"]) and x is not None:
            c.regs[a["q"][i]] = x


@op
def op_window(c, a, L):
    L.a = {"s": a["s"], "len": a["len"], "trim": a["trim"]}
    if a["trim"]:
        r = c.regs[a["p"]].patternFromTimeSlice(c.beats(a["s"]), c.beats(a["len"]))
    else:
        r = c.regs[a["p"]].patternFromTimeSlice(c.beats(a["s"]), c.beats(a["len"]), trimEnd=False)
    L.rp = [encPattern(c, r)]
    if "q" in a:
        c.regs[a["q"]] = r


@op
def op_activeAt(c, a, L):
    L.a = {"t": a["t"]}
    L.rv = {"ids": [c.oid(e) for e in c.regs[a["p"]].activeEventsAtTime(c.beats(a["t"]))]}


@op
def op_startingAt(c, a, L):
    L.a = {"t": a["t"], "tol": a["tol"]}
    p = c.regs[a["p"]]
    if a["tol"]:
        r = p.getStartingEventsAtTime(c.beats(a["t"]), tolerance=c.beats(a["tol"]))
    else:
        r = p.getStartingEventsAtTime(c.beats(a["t"]))
    L.rv = {"ids": [c.oid(e) for e in r]}


@op
def op_contains(c, a, L):
    p = c.regs[a["p"]]
    L.a = {"t": a["t"]}
    L.rv = {"in": [1 if e.containsTime(c.beats(a["t"])) else 0 for e in p.events],
            "end": [c.ticks(e.endTime()) for e in p.events]}


@op
def op_cutInSteps(c, a, L):
    L.a = {"step": a["step"], "i": a["i"] + 1}
    r = c.regs[a["p"]].events[a["i"]].cutInSteps(c.beats(a["step"]))
    L.rv = {"ev": [encEvent(c, e) for e in r], "ids": [c.oid(e) for e in r]}


@op
def op_removeOverlapped(c, a, L):
    L.a = {"pitch": a["pitch"]}
    if a["pitch"]:
        c.regs[a["p"]].removeOverlapped(usePitchValues=True)
    else:
        c.regs[a["p"]].removeOverlapped()


@op
def op_fillSil(c, a, L):
    tag = tagIn(a.get("tag", "silence"))
    L.a = {"max": a["max"], "per": a["per"], "t": ct(tag), "p": a.get("pitch", 0),
           "tc": [ct(x) for x in tag] if isinstance(tag, tuple) else []}
    kw = {}
    if "tag" in a:
        kw["silenceTag"] = tag
    if a.get("pitch"):
        kw["silencePitch"] = a["pitch"]
    if a["per"]:
        kw["perTag"] = True
    if a["max"]:
        kw["maxSilenceTime"] = c.beats(a["max"])
    if "q" in a:
        kw.pop("silencePitch", None)
        L.a["p"] = 0
        r = c.regs[a["p"]].getFilledWithSilences(**kw)
        c.regs[a["q"]] = r
        L.rp = [encPattern(c, r)]
        return
    c.regs[a["p"]].fillWithSilences(**kw)


@op
def op_legato(c, a, L):
    L.a = {"pitch": a["pitch"]}
    if a["pitch"]:
        c.regs[a["p"]].applyLegato()
    else:
        c.regs[a["p"]].applyLegato(usePitchValues=False)


@op
def op_fillPrev(c, a, L):
    c.regs[a["p"]].fillWithPreviousEvent()


@op
def op_quantize(c, a, L):
    L.a = {"step": a["step"], "qs": a["qs"], "qd": a["qd"]}
    kw = {}
    if c.beats(a["step"]) != 0.25:
        kw["stepSize"] = c.beats(a["step"])
    if not a["qs"]:
        kw["quantizeStartTime"] = False
    if not a["qd"]:
        kw["quantizeDuration"] = False
    c.regs[a["p"]].quantize(**kw)


@op
def op_align(c, a, L):
    L.a = {"step": a["step"], "rep": [ct(tagIn(x)) for x in a["rep"]] if "rep" in a else ["s:silence"]}
    if "rep" in a:
        c.regs[a["p"]].alignOnGrid(c.beats(a["step"]), repeatibleTags=[tagIn(x) for x in a["rep"]])
    else:
        c.regs[a["p"]].alignOnGrid(c.beats(a["step"]))


def _query(a):
    q = [tagIn(x) for x in a["q_"]]
    kind = a["kind"]
    if kind == "list":
        return q, {"exactSearch": False}
    if kind == "fn":
        return (lambda t: t in q), {}
    return q[0], {"exactSearch": kind == "exact"}


@op
def op_withTags(c, a, L):
    q, kw = _query(a)
    L.a = {"kind": a["kind"], "q": [ct(tagIn(x)) for x in a["q_"]], "copy": a["copy"], "out": a["out"]}
    p = c.regs[a["p"]]
    if not a["copy"]:
        kw["makeCopy"] = False
    if kw.get("exactSearch") == (not a["out"]) and a["kind"] != "list":  # that is the default
        kw.pop("exactSearch")
    r = (p.getPatternWithoutTags if a["out"] else p.getPatternWithTags)(q, **kw)
    L.rp = [encPattern(c, r)]
    if "q" in a:
        c.regs[a["q"]] = r


@op
def op_withPitch(c, a, L):
    L.a = {"x": a["x"], "copy": a["copy"]}
    p = c.regs[a["p"]]
    r = p.getPatternWithPitch(a["x"]) if a["copy"] else p.getPatternWithPitch(a["x"], makeCopy=False)
    L.rp = [encPattern(c, r)]
    if "q" in a:
        c.regs[a["q"]] = r


@op
def op_tagsPitches(c, a, L):
    p = c.regs[a["p"]]
    L.rv = {"tags": sorted(ct(t) for t in p.getAllTags()), "ps": sorted(c.integer(x) for x in p.getAllPitches())}


@op
def op_copyNoEv(c, a, L):
    r = c.regs[a["p"]].copyWithoutEvents()
    L.rp = [encPattern(c, r)]
    if "q" in a:
        c.regs[a["q"]] = r


@op
def op_copy(c, a, L):
    r = c.regs[a["p"]].copy()
    L.rp = [encPattern(c, r)]
    c.regs[a["q"]] = r


@op
def op_copyEvent(c, a, L):
    L.a = {"i": a["i"] + 1}
    e = c.regs[a["p"]].events[a["i"]].copy()
    L.rv = {"ev": [encEvent(c, e)], "ids": [c.oid(e)]}


@op
def op_removeEvent(c, a, L):
    ev = c.regs[a["p"]].events
    e = ev[a["i"] % len(ev)] if "i" in a and ev else mkEvent(c, a["e"])
    L.a = {"e": encEvent(c, e)}
    c.regs[a["p"]].removeEvent(e)


@op
def op_removeByTags(c, a, L):
    q = [tagIn(x) for x in a["tags"]]
    L.a = {"q": [ct(x) for x in q]}
    c.regs[a["p"]].removeByTags(q)


@op
def op_identical(c, a, L):
    e = mkEvent(c, a["e"])
    L.a = {"e": encEvent(c, e), "all": a["all"]}
    p = c.regs[a["p"]]
    r = p.getIdenticalEvents(e) if a["all"] else p.getIdenticalEvents(e, allTagsMustBeEquals=False)
    L.rv = {"ids": [c.oid(x) for x in r]}


@op
def op_compare(c, a, L):
    """all the comparisons of each event with a given one"""
    e = mkEvent(c, a["e"])
    q = [tagIn(x) for x in a["tags"]]
    L.a = {"e": encEvent(c, e), "q": [ct(x) for x in q]}
    ev = c.regs[a["p"]].events

    def bits(f):
        return [1 if f(x) else 0 for x in ev]
    L.rv = {"eq": bits(lambda x: x == e), "ne": bits(lambda x: x != e), "common": bits(lambda x: x.hasCommonTagWith(e)),
            "common2": bits(lambda x: e.hasCommonTagWith(x)), "oneof": bits(lambda x: x.hasOneOfTags(q)),
            "istag": bits(lambda x: x.isTag(e.tag)), "alleq": bits(lambda x: x.allTagsAreEqualWith(e)),
            "types": 1 if all(isinstance(f(x), bool) for x in ev for f in
                              (lambda x: x == e, lambda x: x != e, lambda x: x.hasCommonTagWith(e),
                               lambda x: x.hasOneOfTags(q), lambda x: x.isTag(e.tag),
                               lambda x: x.allTagsAreEqualWith(e))) else 0}


@op
def op_patEq(c, a, L):
    p, q = c.regs[a["p"]], c.regs[a["q"]]
    L.rp = [encPattern(c, q)]
    L.a = {"ts": 1 if tuple(p.timeSignature) == tuple(q.timeSignature) else 0, "must": a.get("must", 0)}
    L.rv = {"eq": 1 if p == q else 0, "ne": 1 if p != q else 0, "eq2": 1 if q == p else 0}


@op
def op_setVp(c, a, L):
    """stores a pattern as a viewpoint of another one"""
    c.regs[a["p"]].viewpoints[a["key"]] = c.regs[a["q"]]
    c.regs[a["q"]].originPattern = c.regs[a["p"]]


@op
def op_stretch(c, a, L):
    L.a = {"num": a["num"], "den": a["den"]}
    c.regs[a["p"]].timeStretch(a["num"] / float(a["den"]))


@op
def op_transpose(c, a, L):
    L.a = {"n": a["n"]}
    c.regs[a["p"]].transpose(a["n"])


@op
def op_reorder(c, a, L):
    c.regs[a["p"]].reorderEvents()


@op
def op_edit(c, a, L):
    """a user edits an event in place"""
    p = c.regs[a["p"]]
    e = p.events[a["i"] % len(p.events)] if p.events else None
    L.a = {"id": c.oid(e) if e is not None else 0, "f": a["f"], "x": 0, "t": "", "tc": []}
    if e is None:
        return
    if a["f"] == "s":
        e.startTime = c.beats(a["x"])
    elif a["f"] == "d":
        e.duration = c.beats(a["x"])
    elif a["f"] == "p":
        e.pitch = a["x"]
    elif a["f"] == "v":
        e.velocity = a["x"]
    elif a["f"] == "t":
        e.tag = tagIn(a["x"])
        L.a["t"] = ct(e.tag)
        L.a["tc"] = [ct(x) for x in e.tag] if isinstance(e.tag, tuple) else []
    if a["f"] != "t":
        L.a["x"] = a["x"]


@op
def op_editMeta(c, a, L):
    """a user edits the other data of a pattern"""
    p = c.regs[a["p"]]
    if a["f"] == "bpm":
        p.bpm = a["x"]
    elif a["f"] == "ts":
        p.timeSignature = tuple(a["x"])
    elif a["f"] == "tsi":  # in place, when it is a list
        if isinstance(p.timeSignature, list):
            p.timeSignature[0] = a["x"]
        else:
            p.timeSignature = (a["x"], 4)
    elif a["f"] == "key":
        p.key = a["x"]
    elif a["f"] == "name":
        p.name = tagIn(a["x"])
    elif a["f"] == "res":
        p.resolution = a["x"]
    elif a["f"] == "fp":
        p.originFilePath = a["x"]
    elif a["f"] == "st":
        p.startTime = c.beats(a["x"])


@op
def op_editSlice(c, a, L):
    """a user edits the slice that an event of a viewpoint refers to"""
    p = c.regs[a["p"]]
    e = p.events[a["i"] % len(p.events)] if p.events else None
    L.a = {"done": 0}
    if e is not None and e.originPattern is not None and own(c, e.originPattern):
        o = e.originPattern
        L.a = {"done": 1}
        if a["f"] == "p" and o.events:
            o.events[0].pitch += 1
        elif a["f"] == "del" and o.events:
            del o.events[0]
        else:
            o.bpm += 1


@op
def op_editVp(c, a, L):
    """a user edits a viewpoint of a pattern"""
    p = c.regs[a["p"]]
    L.a = {"done": 0}
    vs = [p.viewpoints[k] for k in sorted(p.viewpoints)]
    vs = [v for v in vs if not any(v is r for r in c.regs.values())]
    if vs:
        v = vs[a["i"] % len(vs)]
        L.a = {"done": 1}
        if a["f"] == "t" and v.events:
            v.events[0].tag = "edited"
        elif a["f"] == "del":
            del p.viewpoints[v.name]
        else:
            v.bpm += 1


@op
def op_delEvent(c, a, L):
    p = c.regs[a["p"]]
    if p.events:
        i = a["i"] % len(p.events)
        L.a = {"i": i + 1}
        del p.events[i]
    else:
        L.a = {"i": 0}


@op
def op_listing(c, a, L):
    p = c.regs[a["p"]]
    L.rv = {"rows": [[c.integer(x[0]), c.ticks(x[1]), c.ticks(x[2])] for x in gspattern.patternToList(p)],
            "len": len(p), "items": [c.oid(p[i]) for i in range(len(p))], "rep": 1 if isinstance(repr(p), (str, text_type)) else 0}


@op
def op_grid(c, a, L):
    c.regs[a["p"]].printASCIIGrid(a.get("block", 1))


class Sink(object):
    """text that is printed"""
    def __init__(self):
        self.text = ""

    def write(self, x):
        self.text += x

    def flush(self):
        pass


@op
def op_printed(c, a, L):
    """the grid, the list and the text of a pattern, as a reader takes them: no text is judged but its meaning"""
    p = c.regs[a["p"]]
    L.a = {"block": a["block"]}
    names = {}
    for e in p.events:
        names.setdefault("%s" % (e.tag,), ct(e.tag))
    kw = {} if a["block"] == c.u and a.get("dflt") else {"blockSize": c.beats(a["block"])}
    saved, sys.stdout = sys.stdout, Sink()
    try:
        p.printASCIIGrid(**kw)
        text = sys.stdout.text
    finally:
        sys.stdout = saved
    rows = []
    for line in text.split("\n")[:-1]:
        k = line.find("]: ")
        rows.append({"t": names.get(line[k + 3:], "?" + line), "c": list(line[1:k]) if line[:1] == "[" and k > 0 else ["?"]})
    text = repr(p)
    lines = []
    n = len(p.events)
    allLines = text.split("\n")
    for line in allLines[len(allLines) - 1 - n:-1]:
        x = line.rsplit(" ", 4)
        lines.append({"t": names.get(x[0], "?" + line), "p": int(x[1]), "v": int(x[2]), "s": int(round(float(x[3]) * 10000)),
                      "d": int(round(float(x[4]) * 10000))})
    head = dict(x.split(": ", 1) for x in allLines[:len(allLines) - 1 - n] if ": " in x)
    L.rv = {"rows": rows, "lines": lines, "end": 1 if allLines[-1] == "" else 0,
            "list": [[c.integer(x[0]), c.ticks(x[1]), c.ticks(x[2])] for x in gspattern.patternToList(p)],
            "items": [c.oid(p[i]) for i in range(len(p))], "len": len(p),
            "dur": int(round(float(head.get("Duration", "-1")) * 100)),
            "head": "|".join(head.get(x, "?") for x in ("Name", "Key", "FilePath", "TimeSignature")),
            "bpm": int(round(float(head.get("BPM", "-1")) * 100))}
    L.a["head"] = "%s|%s|%s|%d/%d" % (p.name, p.key, p.originFilePath, p.timeSignature[0], p.timeSignature[1])
    L.a["bpm"] = int(round(p.bpm * 1000000))


def scratch(name):
    d = os.path.join(os.getcwd(), name)
    if not os.path.isdir(d):
        os.makedirs(d)
    return d


def exact(p):
    """the very numbers, in order of their texts"""
    r = sorted("%s %s" % (float(e.startTime).hex(), float(e.duration).hex()) for e in p.events)
    for k in sorted(p.viewpoints):
        r += exact(p.viewpoints[k])
    return r


@op
def op_json(c, a, L):
    p = c.regs[a["p"]]
    L.vp = True
    L.a = {"idx": a["idx"], "tup": a["tup"], "vp": encPattern(c, p, True)["vp"]}
    L.pre = encPattern(c, p, True)
    L.a["exact"] = exact(p)
    kw = {}
    if not a["idx"]:
        kw["useTagIndexing"] = False
    if a["tup"]:
        kw["conserveTuple"] = True
    if a.get("suffix"):
        kw["nameSuffix"] = a["suffix"]
    path = gsio.toJSONFile(p, scratch("json"), **kw)
    base = os.path.basename(path)
    L.a["file"] = 1 if base == (p.name or "") + (a.get("suffix") or "") + ".json" else 0
    r = gsio.fromJSONFile(path, conserveTuple=True) if a["tup"] else gsio.fromJSONFile(path)
    os.remove(path)
    L.rv = {"exact": exact(r)}
    L.rp = [encPattern(c, r, True)]
    if "q" in a:
        c.regs[a["q"]] = r


@op
def op_pickle(c, a, L):
    p = c.regs[a["p"]]
    L.vp = True
    L.pre = encPattern(c, p, True)
    path = gsio.toPickleFile(p, scratch("pickle"), nameSuffix=a.get("suffix"))
    base = os.path.basename(path)
    L.a = {"file": 1 if base == (p.name or "") + (a.get("suffix") or "") + ".pickle" else 0, "exact": exact(p)}
    r = gsio.fromPickleFile(path)
    os.remove(path)
    L.rv = {"exact": exact(r)}
    L.rp = [encPattern(c, r, True)]
    if "q" in a:
        c.regs[a["q"]] = r


@op
def op_legacyJson(c, a, L):
    """a JSON file whose events have several tag indexes"""
    d = {"name": a["name"], "timeInfo": {"duration": c.beats(a["dur"]), "bpm": a["bpm"], "timeSignature": a["ts"]},
         "eventTags": a["tags"], "viewpoints": {},
         "eventList": [{"on": c.beats(e[0]), "duration": c.beats(e[1]), "pitch": e[2], "velocity": e[3],
                        "tagsIdx": e[4]} for e in a["ev"]]}
    path = os.path.join(scratch("json"), "legacy.json")
    with open(path, "w") as f:
        json.dump(d, f)
    r = gsio.fromJSONFile(path)
    os.remove(path)

    def tag(ix):
        return tuple(tagIn(a["tags"][i]) for i in ix) if isinstance(ix, list) else tagIn(a["tags"][ix])
    L.a = {"dur": a["dur"], "nm": txt(tagIn(a["name"])), "m": "|".join([txt(a["bpm"]), txt(tuple(a["ts"]))]),
           "ev": [{"s": e[0], "d": e[1], "p": e[2], "v": e[3], "t": ct(tag(e[4])),
                   "tc": [ct(x) for x in tag(e[4])] if isinstance(e[4], list) else []} for e in a["ev"]]}
    L.rp = [encPattern(c, r)]
    L.rv = {"m": "|".join([txt(r.bpm), txt(r.timeSignature)])}


# ---------------------------------------------------------------- running

def run(prog, out, eng):
    c = Ctx(prog)
    seed = prog.get("seed", 0)
    random.seed(seed)
    heap = c.heap = prog.get("heap", False)
    quiet = open(os.devnull, "w")
    for k, step in enumerate(prog["steps"]):
        name, a = step[0], step[1]
        L = Line()
        L.pre = None
        c.inx = 0
        names = sorted(c.regs) if heap else []
        me = a.get("p")
        target = c.regs.get(me) if name != "new" else None
        pre = encPattern(c, target) if target is not None else NIL
        others = [(n, c.regs[n], encPattern(c, c.regs[n])) for n in names if n != me]
        exc = ""
        saved = sys.stdout
        sys.stdout = quiet
        try:
            OPS[name](c, a, L)
        except KeyboardInterrupt:
            raise
        except SystemExit:
            exc = "SystemExit"
        except BaseException as e:  # noqa
            exc = type(e).__name__
            if os.environ.get("VF_DEBUG"):
                import traceback
                traceback.print_exc()
        finally:
            sys.stdout = saved
        if not exc and (k not in prog["log"] if prog.get("log") else name == "new" and not prog.get("new")):
            continue
        if target is None:
            target = c.regs.get(me)
        post = encPattern(c, target, L.vp) if target is not None else NIL
        line = {"id": prog["id"], "k": k, "op": name, "u": c.u, "a": L.a, "pre": L.pre or pre, "post": post, "rp": L.rp,
                "rv": L.rv, "exc": exc, "inx": c.inx,
                "oth": [{"pre": e, "post": encPattern(c, p)} for n, p, e in others]}
        out.write(json.dumps(line, sort_keys=True) + "\n")
        if exc and name in ("new",):
            break
    quiet.close()


def main():
    eng = "py2" if PY2 else "py3"
    for m in os.environ.get("VF_MODULES", "").split():
        __import__(m)
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as out, open(sys.argv[2] + ".cur", "w") as cur:
        for row in f:
            if row.strip():
                prog = json.loads(row)
                cur.write(prog["id"] + "\n")
                cur.flush()
                run(prog, out, eng)
                out.flush()


if __name__ == "__main__":
    sys.modules["driver"] = sys.modules["__main__"]
    sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
    main()
