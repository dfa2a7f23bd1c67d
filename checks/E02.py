import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS Faithful Extra Refuse Emit\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    return ev["op"] + (":panic" if "panic" in ev["out"] else "")

def corrupt(path):
    bad = []
    for l in open(path):
        t = json.loads(l)
        for e in t["ev"]:
            m = json.loads(json.dumps(e))
            o = m["out"]
            if "cross" in o: o["cross"][-1] ^= 1
            elif "plain" in o: m["out"] = {"cross": o["plain"]}
            elif "error" in o: m["out"] = {"cross": [1] * 20}
            elif "enc" in o: o["enc"][-1] ^= 1
            else: m["out"] = {"panic": "x"}
            bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": [m]}) + "\n")
    return bad[::max(1, len(bad) // 80)]

def run(c):
    build(["drv-protocol"])
    cases, n = c.gen("MC_Interop", MC)
    c.drive("drv-protocol", ["e02", cases, c.path("t.ndjson")])
    c.judge("T_Interop", c.path("t.ndjson"), key=key)
    c.must_reject("T_Interop", corrupt(c.path("t.ndjson")))
    c.assumptions += ["Keccak-256 and secp256k1 recovery of the tiny-keccak and k256 crates are taken as reference"]
