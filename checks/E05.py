import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS RoundTrip Agree Emit\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    if ev["op"] == "secret":
        return "secret:" + ev["what"]
    return ev["op"] + (":panic" if "panic" in ev["out"] else "")

def corrupt(path):
    bad = []
    for l in open(path):
        t = json.loads(l)
        for e in t["ev"]:
            m = json.loads(json.dumps(e))
            o = m["out"]
            for k in ("b", "n", "s", "a"):
                if k in o:
                    o[k] = o[k][:-1] + [o[k][-1] ^ 1] if o[k] else [7]
                    break
            else:
                if "error" in o: m["out"] = {"b": [1, 2]}
                elif "leaks" in o: o["leaks"] = True
            bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": [m]}) + "\n")
    return bad[::max(1, len(bad) // 80)]

def run(c):
    build(["drv-protocol"])
    cases, n = c.gen("MC_TextForms", MC)
    c.drive("drv-protocol", ["e05", cases, c.path("t.ndjson")])
    c.judge("T_TextForms", c.path("t.ndjson"), key=key)
    c.must_reject("T_TextForms", corrupt(c.path("t.ndjson")))
    c.assumptions += ["Keccak-256 of the tiny-keccak crate is taken as reference for the checksum digest",
                      "a secret counts as printed when sixteen of its bytes appear as digits or as a list of numbers"]
