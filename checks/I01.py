import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS Once Emit\nPROPERTIES Dated\nCONSTANT N = %d\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    return ev["op"]

def corrupt(path, field):
    bad = []
    for l in open(path):
        t = json.loads(l)
        for i, e in enumerate(t["ev"]):
            m = json.loads(json.dumps(e))
            o = m["out"][field] if field else m["out"]
            if i % 3 == 0: o["active"] = o["active"] + [99]
            elif o["arch"] and o["arch"][0]["recs"]:
                if i % 3 == 1: o["arch"][0]["date"] = "1999-01-01"
                else: o["arch"] = o["arch"][1:]
            else: continue
            bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [m]}) + "\n")
    return bad[::max(1, len(bad) // 60)]

def run(c):
    build(["drv-base"])
    cases, n = c.gen("MC_LogRoll", MC % (8 if THOROUGH else 6))
    c.drive("drv-base", ["i01", cases, c.path("t.ndjson"), c.path("dirs")])
    c.judge("T_LogRoll", c.path("t.ndjson"), key=key)
    c.must_reject("T_LogRoll", corrupt(c.path("t.ndjson"), "axon"))
    c.judge("T_LogRoll", c.path("t.ndjson.roll"), key=key)
    c.must_reject("T_LogRoll", corrupt(c.path("t.ndjson.roll"), None))
    c.assumptions += ["the wall clock is set by the driver, which supplies clock_gettime", "one process writes the log at a time"]
