import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS Mirrors %s\nCONSTANTS N = %d\nEMIT = %s\nFORGETS = %s\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    return ev["op"] + (":" + "+".join(sorted({t["k"] for t in ev["txs"]})) if "txs" in ev else "")

def corrupt(path):
    bad = []
    for l in open(path):
        t = json.loads(l)
        for i, e in enumerate(t["ev"]):
            for n in range(4):
                m = json.loads(json.dumps(e))
                if n == 0 and e["op"] == "block" and e["txs"]: m["txs"][0]["ok"] = not m["txs"][0]["ok"]
                elif n == 1: m["live"]["hdr"][0] = m["live"]["hdr"][0] + 1
                elif n == 2: m["live"]["cell"][0]["used"] += 1
                elif n == 3 and e["op"] == "block": m["root"] = e["root"] + 1 if i else -1
                else: continue
                if n == 3 and i == 0: continue
                if n == 3 and not any(e["root"] == x["root"] for x in t["ev"][:i] if x["op"] == "block"): continue
                bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [m]}) + "\n")
    return bad[::max(1, len(bad) // 60)]

def run(c):
    build(["drv-node"])
    if "is violated" not in c.tlc("MC_Mirror", MC % ("", 3, "FALSE", "TRUE"), allow=(0, 12, 13)):
        raise ToolError("MC_Mirror does not notice a rollback that keeps cells consumed")
    c.model_check("MC_Mirror", MC % ("", 5 if THOROUGH else 4, "FALSE", "FALSE"))
    cases, n = c.gen("MC_Mirror", MC % ("Emit", 3 if THOROUGH else 2, "TRUE", "FALSE"))
    c.drive("drv-node", ["d05", cases, c.path("t.ndjson"), c.path("db")])
    c.judge("T_Mirror", c.path("t.ndjson"), key=key)
    c.must_reject("T_Mirror", corrupt(c.path("t.ndjson")))
    c.assumptions += ["who may call the two contracts is decided at admission (B03)",
                      "the trie and its digest are those of the library"]
