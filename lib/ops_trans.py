# encoding: utf-8
"""The density transformer (C23)."""
from __future__ import absolute_import, division, print_function

import random

from driver import op, encPattern, ct, tagIn, gstransformers


@op
def op_densityNone(c, a, L):
    t = gstransformers.AgnosticDensity(mode=a["mode"], numSteps=a["n"])
    L.rv = {"none": 1 if t.transformPattern(None, {"normalizedDensities": {"a": 0.5}}) is None else 0}


@op
def op_density(c, a, L):
    """asks for densities: of a pattern, or of the one that was given last"""
    name = "dens:" + a["t"]
    if name not in c.obj:
        c.obj[name] = {"t": gstransformers.AgnosticDensity(mode=a["mode"], numSteps=a["n"]), "n": a["n"], "prev": None, "orig": None}
    o = c.obj[name]
    p = c.regs[a["p"]] if a.get("p") else None
    random.seed(a["seed"])
    enc = encPattern(c, p) if p is not None else None
    if enc is not None:
        same = o["orig"] is not None and [enc[k] for k in ("ev", "dur")] == [o["orig"][k] for k in ("ev", "dur")]
        o["orig"] = enc
        if not same:
            o["prev"] = None
    dens = dict((tagIn(t), x / float(y)) for t, x, y in a["dens"])
    if a.get("configure") and p is not None:
        o["t"].configure({"inputPattern": p})
        p, o["prev"] = None, None
        again = {}
        if dens:
            again["normalizedDensities"] = dens
        r = o["t"].transformPattern(None, again)
        p = c.regs[a["p"]]
    else:
        r = o["t"].transformPattern(p, {"normalizedDensities": dens} if dens or a.get("empty") else {})
    L.pre = o["orig"]
    got = encPattern(c, r)
    L.a = {"n": o["n"], "step": o["orig"]["dur"] // o["n"], "given": 1 if p is not None and not a.get("configure") else 0,
           "dens": [{"t": ct(tagIn(t)), "num": x, "den": y} for t, x, y in a["dens"]]}
    L.rv = {"prev": [o["prev"]] if o["prev"] is not None else [], "now": [enc, encPattern(c, p)] if p is not None else []}
    L.rp = [got]
    o["prev"] = got
    if a.get("q"):
        c.regs[a["q"]] = r
