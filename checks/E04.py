import json
from vlib import *

MC = "INIT Init\nNEXT Next\nCONSTANT D <- MarkedD\nINVARIANTS Roots Proofs Binary\n"
D = "CONSTANT D <- TableD\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    if ev["op"] == "headerbloom":
        return "header-bloom:" + ("rlp-of-blooms" if ev["rlp_of_blooms"] else "other")
    return ev["op"] + (":panic" if "panic" in ev["out"] else "")

def corrupt(path):
    bad = []
    for l in open(path):
        t = json.loads(l)
        for e in t["ev"]:
            m = json.loads(json.dumps(e))
            o = m["out"]
            if "root" in o: o["root"][0] ^= 1
            elif "nodes" in o and o["nodes"]: o["nodes"] = o["nodes"][:-1]
            elif "value" in o: o["value"] = o["value"][:-1] + [o["value"][-1] ^ 1]
            elif "error" in o and e["op"] == "verify": m["out"] = {"none": True}
            elif e["op"] == "bloom": o["bits"] = o["bits"][1:] if o["bits"] else [5]
            elif "b" in o: o["b"][-1] ^= 1
            elif "r" in o and o["r"]: o["r"][-1]["first"] += 1
            elif "same" in o: o["same"] = True
            else: continue
            if m["out"] == {"none": True}: continue
            bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": [m]}) + "\n")
    return bad[::max(1, len(bad) // 60)]

def run(c):
    build(["drv-protocol"])
    c.model_check("MC_Commit", MC)
    c.drive("drv-protocol", ["e04", c.path("t.ndjson")])
    c.judge("T_Commit", c.path("t.ndjson"), key=key, consts=D)
    c.must_reject("T_Commit", corrupt(c.path("t.ndjson")), consts=D)
    c.assumptions += ["Keccak-256 of the tiny-keccak crate is taken as reference",
                      "lists of up to 259 items (thorough: 520), long lists up to 3000 (thorough: 70000) for change of the root only, receipts with up to 4 logs of up to 4 topics"]
