import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS OneEpoch Kept %s\nCONSTANTS N = %d\nEMIT = %s\nGAPS = %s\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    if tr["id"].startswith("proposed:"):
        return "proposed"
    return ev["op"] + (":" + "+".join(sorted({t["k"] for t in ev["txs"]})) if "txs" in ev else "")

def corrupt(path):
    bad = []
    for l in open(path):
        t = json.loads(l)
        if t["id"].startswith("proposed") or any(e["op"] == "crash" for e in t["ev"]): continue
        for i, e in enumerate(t["ev"]):
            for n in range(5):
                m = json.loads(json.dumps(e))
                if n == 0 and e["op"] == "block" and e["txs"]: m["txs"][0]["ok"] = not m["txs"][0]["ok"]
                elif n == 1: m["look"]["at"][i % len(m["look"]["at"])]["e"] += 1
                elif n == 2: m["look"]["eps"][-1]["cnt"][0] += 1
                elif n == 3: q = m["look"]["at"][i % len(m["look"]["at"])]; q["last"] = not q["last"]
                elif n == 4: m["look"]["eps"][0]["vals"][0]["w"] += 1
                else: continue
                bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [m]}) + "\n")
    return bad[::max(1, len(bad) // 60)]

def run(c):
    build(["drv-node"])
    if "is violated" not in c.tlc("MC_Epochs", MC % ("", 2, "FALSE", "TRUE"), allow=(0, 12, 13)):
        raise ToolError("MC_Epochs does not notice an epoch that starts anywhere")
    c.model_check("MC_Epochs", MC % ("", 4 if THOROUGH else 3, "FALSE", "FALSE"))
    cases, n = c.gen("MC_Epochs", MC % ("Emit", 2, "TRUE", "FALSE"))
    c.drive("drv-node", ["d03", cases, c.path("t.ndjson"), c.path("db")])
    c.judge("T_Epochs", c.path("t.ndjson"), key=key)
    c.must_reject("T_Epochs", corrupt(c.path("t.ndjson")))
    c.assumptions += ["the consensus parameters are those last set, whatever epoch is asked for",
                      "the first two epochs are those of the genesis"]
