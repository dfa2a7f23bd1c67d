import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS Conserved NoDebt Nonces\nCONSTANTS N = %d\nEMIT = FALSE\nMINTS = %s\n"

def key(tr, i, ev):
    return (ev["op"] + ":" + ev.get("what", "")) if ev else "end"

def corrupt(path):
    bad = []
    for l in open(path):
        t = json.loads(l)
        for i, e in enumerate(t["ev"]):
            m = json.loads(json.dumps(e))
            if e["op"] == "twin": m["root"] += 1
            elif e["op"] == "ask": m["got"] += 1
            elif e["op"] == "see": m["after"]["bal"][i % 12] += 1
            else: continue
            bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [m]}) + "\n")
    return bad[::max(1, len(bad) // 80)]

def run(c):
    build(["drv-node"])
    c.model_check("MC_Money", MC % (2, "FALSE"))
    c.drive("drv-node", ["d01", "other", c.path("t.ndjson"), c.path("db")])
    c.judge("T_Money", c.path("t.ndjson"), key=key)
    c.must_reject("T_Money", corrupt(c.path("t.ndjson")))
    c.assumptions += ["both nodes run the same build"]
