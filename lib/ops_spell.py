# encoding: utf-8
"""Spelling of notes and chords (C28)."""
from __future__ import absolute_import, division, print_function

from driver import op, gsutil, gsdefs, text_type


def sign(a):
    """the accidental asked for, not always as the very object that the code has"""
    return {"#": "#", "b": "b", "##"[1:]: "#"}[a["alt"]] if a.get("lit") else (text_type if a.get("uni") else str)("x" + a["alt"])[1:]


@op
def op_spellClass(c, a, L):
    kw = {} if a.get("dflt") else {"alt": sign(a)}
    L.a = {"pc": a["pc"], "alt": "#" if a.get("dflt") else a["alt"]}
    L.rv = {"name": str(gsutil.pc2note(a["pc"], **kw)), "line": int(gsutil.pc2base40(a["pc"], **kw))}


@op
def op_spellChord(c, a, L):
    steps = list(a["steps"]) if "steps" in a else gsdefs.chordIntervals[a["type"]]
    before = list(steps)
    names = gsutil.makeChord(a["root"], steps)
    L.a = {"root": a["root"], "type": a.get("type", ""), "steps": before}
    L.rv = {"names": [str(x) for x in names], "same": 1 if steps == before else 0}


@op
def op_spellPitch(c, a, L):
    """the name of a pitch, and the pitch that the table of names has for it"""
    names = gsdefs.defaultPitchNames if not a.get("names") else a["names"]
    before = list(names)
    x = str(gsutil.pitch2name(a["pitch"], names))
    k = max(i for i, ch in enumerate(x) if not (ch.isdigit() or ch == "-")) + 1
    L.a = {"pitch": a["pitch"], "names": [str(n) for n in before]}
    L.rv = {"name": x[:k], "octave": int(x[k:]), "same": 1 if names == before else 0}


@op
def op_pitchTables(c, a, L):
    def note(x):
        k = 2 if x[1:2] in ("#", "b") else 1
        return [x[0].upper() + x[1:k], int(x[k:])]
    L.a = {}
    L.rv = {"types": [{"n": k, "x": list(v)} for k, v in sorted(gsdefs.chordTypes.items())],
            "steps": [{"n": k, "x": list(v)} for k, v in sorted(gsdefs.chordIntervals.items())],
            "notes": [note(k) + [v] for k, v in sorted(gsdefs.noteMap.items())],
            "keys": [[k, v] for k, v in sorted(gsdefs.midiKey.items())],
            "line": list(gsdefs.pitch40), "default": list(gsdefs.defaultPitchNames)}
