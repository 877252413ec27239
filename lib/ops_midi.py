# encoding: utf-8
"""Operations on MIDI files, datasets and collections (C13 to C16)."""
from __future__ import absolute_import, division, print_function

import collections
import copy
import io
import os
import shutil

from driver import (op, encEvent, encPattern, ct, tagIn, scratch, gspattern, gsio, midiio, gsdataset, gsdefs, text_type, PY2)

CHANNEL = {128: "NoteOffEvent", 144: "NoteOnEvent", 160: "AfterTouchEvent", 176: "ControlChangeEvent",
           192: "ProgramChangeEvent", 208: "ChannelAfterTouchEvent", 224: "PitchWheelEvent"}
METAS = {0: "SequenceNumberMetaEvent", 1: "TextMetaEvent", 2: "CopyrightMetaEvent", 3: "TrackNameEvent",
         4: "InstrumentNameEvent", 5: "LyricsEvent", 6: "MarkerEvent", 7: "CuePointEvent", 8: "ProgramNameEvent",
         0x20: "ChannelPrefixEvent", 0x21: "PortEvent", 0x2E: "TrackLoopEvent", 0x2F: "EndOfTrackEvent",
         0x51: "SetTempoEvent", 0x54: "SmpteOffsetEvent", 0x58: "TimeSignatureEvent", 0x59: "KeySignatureEvent",
         0x7F: "SequencerSpecificEvent"}
FIELDS = {128: ["pitch", "velocity"], 144: ["pitch", "velocity"], 160: ["pitch", "value"], 176: ["control", "value"],
          192: ["value"], 208: ["value"], 224: ["pitch"], (255, 81): ["mpqn"],
          (255, 88): ["numerator", "denominator", "metronome", "thirtyseconds"], (255, 89): ["alternatives", "minor"]}


def kind(e):
    if isinstance(e, midiio.MetaEvent):
        return 255, e.metacommand
    if isinstance(e, midiio.SysexEvent):
        return 240, 0
    return e.statusmsg, e.channel


def num(c, x):
    """a number of at most 31 bits"""
    try:
        r = int(x)
        if r == x and not isinstance(x, bool) and abs(r) < 1 << 31:
            return r
    except (TypeError, ValueError, OverflowError):
        pass
    c.inx = 1
    return -1


def values(c, e):
    k, m = kind(e)
    if k == 255 and 1 <= m <= 8:
        return [ord(x) for x in e.text]
    names = FIELDS.get((k, m) if k == 255 else k, [])
    return [num(c, getattr(e, n)) for n in names]


def encMsg(c, e):
    k, m = kind(e)
    return {"dt": num(c, e.tick), "k": num(c, k), "c": num(c, m), "d": [num(c, x) for x in e.data],
            "v": values(c, e)}


def fileOf(name, data):
    path = os.path.join(scratch("midi"), name)
    with open(path, "wb") as f:
        f.write(bytes(bytearray(data)))
    return path


def bytesOf(path):
    with open(path, "rb") as f:
        return [int(x) for x in bytearray(f.read())]


@op
def op_midiRead(c, a, L):
    L.a = {"bytes": a["bytes"]}
    how = a.get("how", "path")
    if how == "path":
        m = midiio.read_midifile(fileOf("read.mid", a["bytes"]))
    else:
        m = midiio.read_midifile(io.BytesIO(bytes(bytearray(a["bytes"]))))
    tracks = [[encMsg(c, e) for e in t] for t in m]
    if how == "path":
        path = os.path.join(scratch("midi"), "again.mid")
        midiio.write_midifile(path, m)
        again = bytesOf(path)
        os.remove(path)
    else:
        buf = io.BytesIO()
        midiio.write_midifile(buf, m)
        again = [int(x) for x in bytearray(buf.getvalue())]
    m.make_ticks_abs()
    if a.get("twice"):
        m.make_ticks_abs()
    ab = [[num(c, e.tick) for e in t] for t in m]
    # the beginning of each track, of its own, from absolute ticks to relative ones
    n = a.get("cut", 3)
    cut = copy.deepcopy(m)[0:]
    begun = [t[0:n] for t in cut]
    for t in begun:
        t.make_ticks_rel()
    begun = [[num(c, e.tick) for e in t] for t in begun]
    m.make_ticks_rel()
    if a.get("twice"):
        m.make_ticks_rel()
    back = [[num(c, e.tick) for e in t] for t in m]
    part = m[0:1]
    ok = part.resolution == m.resolution and part.frmt == m.frmt and len(part) == min(1, len(m))
    for t in m:
        ok = ok and [id(e) for e in t[0:2]] == [id(e) for e in list(t)[0:2]] and len(repr(t)) > 0
    L.rv = {"fmt": num(c, m.frmt), "res": num(c, m.resolution), "tracks": tracks, "again": again, "abs": ab,
            "back": back, "slice": 1 if ok else 0, "cut": n, "begun": begun}


def build(x, style):
    k, m, v, dt = x["k"], x["c"], list(x["v"]), x["dt"]
    if k == 255:
        cls = getattr(midiio, METAS[m]) if m in METAS else midiio.UnknownMetaEvent
        kw = {} if m in METAS else {"metacommand": m}
    elif k == 240:
        cls, kw = midiio.SysexEvent, {}
    else:
        cls, kw = getattr(midiio, CHANNEL[k]), {"channel": m}
        if m == 0 and style == 2:
            kw = {}                     # the default channel
    if x["raw"]:
        return cls(tick=dt, data=v, **kw)
    if k == 255 and 1 <= m <= 8:
        return cls(tick=dt, text="".join(chr(b) for b in v), **kw)
    names = FIELDS[(k, m) if k == 255 else k]
    if style == 1:
        e = cls(tick=dt, **kw)
        for n, y in zip(names, v):
            setattr(e, n, y)
        return e
    kw.update(zip(names, v))
    return cls(tick=dt, **kw)


def goodCopy(e):
    """a copy has what the message has but for what was asked for, and can be changed on its own"""
    was = list(e.data)
    f = e.copy(tick=e.tick + 1)
    ok = f.tick == e.tick + 1 and list(f.data) == was and type(f) is type(e) and kind(f) == kind(e)
    if f.data:
        f.data[0] ^= 1
    return ok and list(e.data) == was


@op
def op_midiWrite(c, a, L):
    L.a = {"fmt": a["fmt"], "res": a["res"], "tracks": a["tracks"]}
    style = a.get("style", 0)
    m = midiio.Pattern(resolution=a["res"], frmt=a["fmt"])
    copies = True
    for t in a["tracks"]:
        track = midiio.Track()
        for x in t:
            e = build(x, style)
            if style == 3 and hasattr(e, "copy"):
                copies = copies and goodCopy(e)
            track.append(e)
        m.append(track)
    vals = [[values(c, e) for e in t] for t in m]
    if a.get("abs"):
        m.make_ticks_abs()
        m.make_ticks_rel()
    path = os.path.join(scratch("midi"), "write.mid")
    midiio.write_midifile(path, m)
    L.rv = {"bytes": bytesOf(path), "vals": vals, "copies": 1 if copies else 0}
    os.remove(path)


# ----------------------------------------------------------------- import

def mapping(a):
    """what the program says -> the mapping given to the code, and what the specification reads"""
    spec = {"map": [], "names": [], "wantI": [x for x in a.get("tracks", []) if isinstance(x, int)],
            "wantN": [[ord(y) for y in x] for x in a.get("tracks", []) if not isinstance(x, int)],
            "tfn": a.get("tfn", 0), "filter": a.get("filter", 1)}
    m = a["map"]
    if m == "pitchName":
        spec["names"] = list(gsdefs.defaultPitchNames)
        return "pitchName", spec
    if isinstance(m, dict):
        names = [str(x) for x in m["names"]]
        spec["names"] = names or list(gsdefs.defaultPitchNames)
        return {"pitchName": names or ""}, spec
    r = collections.OrderedDict()
    for label, cond in m:
        l = tagIn(label)

        def one(x):
            return tuple(x) if isinstance(x, list) else x
        r[l] = [one(x) for x in cond["list"]] if "list" in cond else one(cond["one"])
        conds = cond["list"] if "list" in cond else [cond["one"]]
        spec["map"].append({"l": ct(l), "b": [ord(y) for y in l] if not isinstance(l, int) else [],
                            "conds": [[-1 if y == "*" else y for y in (x if isinstance(x, list) else [x, "*"])] for x in conds]})
    return r, spec


def unmodified(m, saved):
    return m == saved and (not isinstance(m, dict) or list(m) == list(saved)) and repr(m) == repr(saved)


def encImported(c, p, res):
    """an imported pattern, in ticks of the file; notes that end where they start last the shortest time there is"""
    u, c.u = c.u, res
    try:
        r = encPattern(c, copyOf(p))
    finally:
        c.u = u
    return r


class copyOf(object):
    def __init__(self, p):
        self.__dict__.update(p.__dict__)
        self.events = []
        for e in p.events:
            f = copy.copy(e)
            if abs(f.duration - 0.0001) < 1e-9:
                f.duration = 0
            self.events.append(f)


def others(c, p):
    mp = 6e7 / p.bpm
    if abs(mp - round(mp)) > 1e-4:
        c.inx = 1
    return {"mpqn": int(round(mp)), "ts": [num(c, x) for x in p.timeSignature], "key": str(p.key),
            "res": num(c, p.resolution), "positive": 1 if all(e.duration > 0 for e in p.events) else 0,
            "nm": p.name if isinstance(p.name, (str, text_type)) else str(p.name)}


def options(a):
    kw = {}
    if a.get("tracks"):
        kw["tracksToGet"] = [tagIn(x) for x in a["tracks"]]
    if a.get("tfn"):
        kw["tagFromTrackName"] = True
    if not a.get("filter", 1):
        kw["filterOutNotMapped"] = False
    return kw


def resolution(data):
    return data[12] * 256 + data[13]


@op
def op_midiImport(c, a, L):
    m, spec = mapping(a)
    saved = copy.deepcopy(m)
    res = resolution(a["bytes"])
    name = a.get("name", "some.mid")
    L.a = dict(spec, bytes=a["bytes"], over=a.get("over", 0), nm=name)
    kw = options(a)
    if a.get("over"):
        kw["checkForOverlapped"] = True
    path = fileOf(name, a["bytes"])
    if a["map"] == "pitchName" and a.get("default"):
        p = gsio.fromMidiFile(path, **kw)
    else:
        p = gsio.fromMidiFile(path, m, **kw)
    os.remove(path)
    L.rp = [encImported(c, p, res)]
    L.rv = {"x": others(c, p), "mapSame": 1 if unmodified(m, saved) else 0}
    if "q" in a:
        c.regs[a["q"]] = p


def inFolder(files):
    d = scratch("coll")
    shutil.rmtree(d)
    os.makedirs(d)
    for f in files:
        path = os.path.join(d, f["name"])
        if not os.path.isdir(os.path.dirname(path)):
            os.makedirs(os.path.dirname(path))
        with open(path, "wb") as g:
            g.write(bytes(bytearray(f["bytes"])))
    return d


def whichFile(files, name):
    """the number of the file that a pattern, or a slice, has been named after"""
    for i, f in enumerate(files):
        n = os.path.basename(f["name"])
        if name == n or (name.startswith(n + "_") and name[len(n) + 1:].isdigit()):
            return i + 1
    return 0


def encResults(c, files, ps):
    r = []
    for p in ps:
        i = whichFile(files, p.name) if p is not None else 0
        if i == 0:
            r.append({"fi": 0, "pat": encPattern(c, None), "x": {"none": 1}})
        else:
            r.append({"fi": i, "pat": encImported(c, p, resolution(files[i - 1]["bytes"])), "x": others(c, p)})
    return r


@op
def op_midiCollection(c, a, L):
    m, spec = mapping(a)
    saved = copy.deepcopy(m)
    d = inFolder(a["files"])
    files = [f for f in a["files"] if f["match"]]
    L.a = dict(spec, files=[f["bytes"] for f in files], len=a["len"])
    kw = options(a)
    if a["len"]:
        kw["desiredLength"] = a["len"]
    ps = gsio.fromMidiCollection(os.path.join(d, a["glob"]), m, **kw)
    L.rv = {"got": encResults(c, files, ps), "mapSame": 1 if unmodified(m, saved) else 0}
    shutil.rmtree(d)


@op
def op_dataset(c, a, L):
    m, spec = mapping(a)
    saved = copy.deepcopy(m)
    d = inFolder(a["files"])
    files = [f for f in a["files"] if f["match"]]
    L.a = dict(spec, files=[f["bytes"] for f in files], len=a["len"], over=a["over"], sup=a["sup"])
    kw = {} if a["over"] else {"checkForOverlapped": False}
    ds = gsdataset.Dataset(midiFolder=d, midiGlob=a["first"], midiMap=m, **kw)
    if a["first"] != a["glob"]:
        ds.importMidi(a["glob"])
    got = encResults(c, files, ds.patterns)
    items = [ds[i] is p for i, p in enumerate(ds.patterns)]
    sl = ds.getAllSliceOfDuration(a["len"], supressEmptyPattern=bool(a["sup"]))
    L.rv = {"got": got, "mapSame": 1 if unmodified(m, saved) and ds.midiMap == saved else 0, "slices": encResults(c, files, sl),
            "after": encResults(c, files, ds.patterns), "items": 1 if all(items) else 0, "empty": sl.count(None)}
    shutil.rmtree(d)


# ----------------------------------------------------------------- export

def encodings(name):
    """a text as bytes, in all the ways in which a MIDI file may have it"""
    if PY2 and not isinstance(name, text_type):
        return [[int(x) for x in bytearray(name)]]
    r = [[int(x) for x in bytearray(name.encode("utf-8"))]]
    try:
        b = [int(x) for x in bytearray(name.encode("latin-1"))]
        return r if b in r else r + [b]
    except UnicodeError:
        return r


@op
def op_midiExport(c, a, L):
    p = c.regs[a["p"]]
    kw = {}
    mp = []
    if a.get("map"):
        d = {}
        for label, pitch in a["map"]:
            d[tagIn(label)] = pitch
            mp.append({"l": ct(tagIn(label)), "p": pitch})
        kw["midiMap"] = d
        saved = dict(d)
    if a.get("name"):
        kw["name"] = tagIn(a["name"])
    name = a.get("name") or p.name
    bpm = a["bpm"]
    L.a = {"map": mp, "bpm": bpm, "ts": list(p.timeSignature), "key": p.key or "", "res": p.resolution,
           "tn": encodings(p.name), "nm": [ord(x) for x in name]}
    p.bpm = bpm[0] / float(bpm[1]) if bpm[1] != 1 else bpm[0]
    L.pre = encPattern(c, p)
    folder = os.path.join(scratch("midi"), "out")
    path = gsio.toMidiFile(p, folderPath=folder, **kw)
    data = bytesOf(path)
    r = gsio.fromMidiFile(path)
    L.rv = {"bytes": data, "x": others(c, r), "file": [ord(x) for x in os.path.basename(path)],
            "same": 1 if not mp or kw["midiMap"] == saved else 0}
    L.rp = [encImported(c, r, p.resolution)]
    shutil.rmtree(folder)
    if "q" in a:
        c.regs[a["q"]] = r
