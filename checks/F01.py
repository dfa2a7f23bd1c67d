import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS Intersect OnlyVoted ZeroIrrelevant Emit\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    return "panic" if "panic" in ev["out"] else ("accepted" if ev["out"]["accept"] else "refused") + ":" + ev["t"]["alter"] + ":" + ev["t"]["garble"]

def flip(path, n=80):
    bad = []
    for l in open(path):
        e = json.loads(l)["ev"][0]
        e["out"]["accept"] = not e["out"]["accept"]
        bad.append(json.dumps({"id": "x", "ev": [e]}) + "\n")
    return bad[::max(1, len(bad) // n)]

def run(c):
    build(["drv-protocol"])
    cases, n = c.gen("MC_Quorum", MC)
    c.drive("drv-protocol", ["f01", cases, c.path("t.ndjson")])
    c.judge("T_Quorum", c.path("t.ndjson"), key=key)
    c.must_reject("T_Quorum", flip(c.path("t.ndjson")))
    c.assumptions += ["BLS aggregate signatures are unforgeable and injective in their signers (blst)",
                      "up to seven validators with the listed weights; every tampering alone or with a matching proof hash"]
