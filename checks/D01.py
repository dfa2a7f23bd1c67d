import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS Conserved NoDebt Nonces\nCONSTANTS N = %d\nEMIT = FALSE\nMINTS = %s\n"

def key(tr, i, ev):
    kind = tr["id"].split(":")[0]
    if kind == "system":
        return tr["id"]
    return kind + ":" + (ev["op"] if ev else "end")

def corrupt(path):
    bad = []
    for l in open(path):
        t = json.loads(l)
        if not t["id"].startswith("calm"): continue
        for i, e in enumerate(t["ev"]):
            if not e["txs"]: continue
            for n in range(7):
                m = json.loads(json.dumps(e))
                x = m["txs"][i % len(m["txs"])]
                if n == 0: x["ok"] = not x["ok"]
                elif n == 1: m["after"]["bal"][x["from"] - 1] += 1
                elif n == 2: m["after"]["bal"][4] -= 1
                elif n == 3: m["after"]["nonce"][x["from"] - 1] += 1
                elif n == 4: x["fee"] += 1
                elif n == 5: m["after"]["slot"][1] += 1
                elif n == 6: m["gas"] += 1
                bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [m]}) + "\n")
    return bad[::max(1, len(bad) // 80)]

def run(c):
    build(["drv-node"])
    if "is violated" not in c.tlc("MC_Money", MC % (2, "TRUE"), allow=(0, 12, 13)):
        raise ToolError("MC_Money does not notice gas given back that was never paid")
    c.model_check("MC_Money", MC % (3 if THOROUGH else 2, "FALSE"))
    c.drive("drv-node", ["d01", "money", c.path("t.ndjson"), c.path("db")])
    c.judge("T_Money", c.path("t.ndjson"), key=key)
    c.must_reject("T_Money", corrupt(c.path("t.ndjson")))
    c.assumptions += ["how much gas the machine uses for the contract's own code is taken from the receipt",
                      "what a transfer of fees leaves over when it does not divide among the weights belongs to nobody"]
