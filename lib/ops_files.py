# encoding: utf-8
"""Searching files and matching their names (C29)."""
from __future__ import absolute_import, division, print_function

import os
import shutil

from driver import op, gsutil, scratch


def codes(x):
    return [ord(ch) for ch in x]


def suffix(w, never_list=False):
    if w["any"]:
        return None
    s = [str(x) for x in w["of"]]
    return s[0] if never_list or (len(s) == 1 and not w.get("list")) else s


def want(w):
    return {"any": w["any"], "of": [codes(x) for x in w["of"]]}


@op
def op_search(c, a, L):
    """files: paths of files, dirs: paths of folders; qs: what is searched"""
    top = scratch("files")
    here = os.getcwd()
    try:
        for d in a["dirs"]:
            os.makedirs(os.path.join(top, d))
        for f in a["files"]:
            with open(os.path.join(top, f), "w"):
                pass
        pre = "" if a.get("rel") else top + "/"
        if a.get("rel"):
            os.chdir(top)
        qs = [pre + str(q) for q in a["qs"]]
        if a.get("slash") and len(qs) == 1:
            qs = [q + "/" if q[len(pre):] in a["dirs"] else q for q in qs]
        arg = qs if len(qs) != 1 or a.get("list") else qs[0]
        suf = suffix(a["want"])
        saved = (list(qs), list(suf) if isinstance(suf, list) else suf)
        err, got = 0, []
        try:
            got = gsutil.search_files(arg) if suf is None else gsutil.search_files(arg, suf)
        except (IOError, OSError):
            err = 1
        L.a = {"tree": [{"p": codes(d), "dir": 1} for d in a["dirs"]] + [{"p": codes(f), "dir": 0} for f in a["files"]],
               "qs": [codes(str(q)) for q in a["qs"]], "want": want(a["want"])}
        ok = all(g.startswith(pre) for g in got) and isinstance(got, list)
        L.rv = {"err": err, "got": [codes(g[len(pre):].replace("//", "/")) for g in got],
                "same": 1 if ok and saved == (qs, suf) else 0}
    finally:
        os.chdir(here)
        shutil.rmtree(top)


@op
def op_matchNames(c, a, L):
    kw = {}
    sx, sy = suffix(a["sx"], True), suffix(a["sy"], True)
    if sx is not None:
        kw["suffix"] = sx
    if sy is not None:
        kw["match_suffix"] = sy
    x, ys = str(a["x"]), [str(y) for y in a["ys"]]
    saved = list(ys)
    got = gsutil.match_files(x, ys, **kw)
    strip = gsutil.strip_suffix(x) if sx is None else gsutil.strip_suffix(x, sx)
    L.a = {"x": codes(x), "ys": [codes(y) for y in saved], "sx": want(a["sx"]), "sy": want(a["sy"])}
    L.rv = {"got": [codes(g) for g in got], "strip": codes(strip), "same": 1 if ys == saved and isinstance(got, list) else 0}
