import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS Right %s\nCONSTANTS N = %d\nEMIT = %s\nKEEPS = %s\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    if ev["op"] == "commit":
        return "commit"
    t = ev["t"]
    return ":".join([ev["op"], t["to"], t["sig"], "taken" if ev["ok"] else "refused"])

def corrupt(path):
    bad = []
    for l in open(path):
        t = json.loads(l)
        for i, e in enumerate(t["ev"]):
            m = json.loads(json.dumps(e))
            if e["op"] == "insert" and i % 3 == 0: m["ok"] = m["in"] = not e["ok"]
            elif e["op"] == "insert": m["in"] = not e["in"]
            else: continue
            bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [m]}) + "\n")
    return bad[::max(1, len(bad) // 60)]

def run(c):
    build(["drv-node"])
    if "is violated" not in c.tlc("MC_Admission", MC % ("", 5, "FALSE", "TRUE"), allow=(0, 12, 13)):
        raise ToolError("MC_Admission does not notice a pool that remembers an account beyond a block")
    c.model_check("MC_Admission", MC % ("", 8 if THOROUGH else 7, "FALSE", "FALSE"))
    cases, n = c.gen("MC_Admission", MC % ("Emit", 5 if THOROUGH else 4, "TRUE", "FALSE"))
    c.drive("drv-node", ["b03", cases, c.path("t.ndjson"), c.path("db")])
    c.judge("T_Admission", c.path("t.ndjson"), key=key)
    c.must_reject("T_Admission", corrupt(c.path("t.ndjson")))
    c.assumptions += ["a transaction reaches the pool with the sender that its signature recovers to, as every way into the node makes it",
                      "the digest and the curve are those of the libraries"]
