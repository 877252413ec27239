#!/usr/bin/env python3
"""Writes known-findings.txt from the fix: commits of /repo (kept by hand: which property each broke)."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BY = {"c63166d": "C26", "7fc343a": "C09", "5663abe": "C09", "bf1d409": "C09", "e3e1b7b": "C04", "8ccdcf9": "C01", "5d7d0a7": "C06",
      "bc581e8": "C05", "dc91acc": "C07", "f6a01a6": "C06", "0418480": "C08", "278c58f": "C11", "a9da56c": "C02", "808c13c": "C04",
      "5753d7a": "C02", "3b5c58d": "C12", "dbca5a0": "C18", "9d581b7": "C13", "5e060e4": "C16", "20c8502": "C16", "f74f0bc": "C16",
      "b6c1bbd": "C16", "a19d0f6": "C13", "1297eca": "C13", "e129444": "C13", "ea17b47": "C13", "dc038fc": "C14", "bd7c379": "C14",
      "dcfd875": "C15", "2fbd3a3": "C15", "b955e64": "C15", "c9ae67c": "C15", "26dc871": "C15", "81c32d4": "C16", "14b3e5f": "C21",
      "bbc3410": "C21", "fb52c0e": "C21", "2372dab": "C20", "1a4bb7d": "C22", "1153353": "C22", "38d1d4e": "C23", "390ce97": "C19",
      "43c635d": "C24", "11d30f8": "C24", "3e1227e": "C24", "c16c975": "C25", "835294d": "C25", "eb2cd66": "C25", "004fbe2": "C25",
      "7a6a883": "C25", "b68d892": "C25", "bf22960": "C16", "f116109": "C14", "3016e62": "C16", "cc96834": "C16", "66b80e7": "C10",
      "6aad90a": "C22", "7227c8b": "C08", "d3c6e22": "C07", "a31e774": "C12", "ed48a1f": "C02", "c075115": "C18", "58f9696": "C20", "c6f83c6": "C22", "a56a175": "C23", "fc14d0e": "C25",
      "bbacd53": "C20", "b50061d": "C20",
      "02f5630": "C13", "7e826f9": "C13", "a1edac5": "C27", "24fcb2c": "C28", "329fa08": "C28", "a9faf1a": "C29", "5fdefc2": "C29",
      "dce309c": "C29", "0cdd16a": "C16", "5a50c99": "C16", "56dcc94": "C25", "ab7fefd": "C14"}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "9fd8aac..HEAD"], text=True)
out = ["# Genuine defects found by the checks and by reading the code. 'fixed' entries suppress nothing.",
       "# 'known: property=<id> signature=<signature> <what fails>' entries (none at present) are printed as KNOWN-FINDING."]
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        if h[:7] not in BY:
            print("unassigned", l)
        out.append("fixed: property=%s %s %s" % (BY.get(h[:7], "C26"), h, s[5:]))
open(os.path.join(HERE, "known-findings.txt"), "w").write("\n".join(out) + "\n")
