import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS Refused Own Range Exactly %s\nCONSTANTS N = %d\nANYONE = %s\n"

def key(tr, i, ev):
    return (ev["op"] + ":" + "+".join(sorted({t["to"] for t in ev["txs"][:-1]}))) if ev else "end"

def corrupt(path):
    bad = []
    for l in open(path):
        t = json.loads(l)
        for i, e in enumerate(t["ev"]):
            for n in range(6):
                m = json.loads(json.dumps(e))
                was = (t["ev"][i - 1] if i else t["cfg"])["sys"]
                if n < 4: m["sys"][n] = was[n] + 100 if m["sys"][n] == was[n] else was[n]
                elif n == 4: m["bal"][i % 12] += 1
                else: m["txs"][0]["ok"] = not m["txs"][0]["ok"]
                bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [m]}) + "\n")
    return bad[::max(1, len(bad) // 80)]

def run(c):
    build(["drv-node"])
    if "is violated" not in c.tlc("MC_Contracts", MC % ("", 2, "TRUE"), allow=(0, 12, 13)):
        raise ToolError("MC_Contracts does not notice a call that nobody was allowed to make")
    c.model_check("MC_Contracts", MC % ("", 3 if THOROUGH else 2, "FALSE"))
    cases, n = c.gen("MC_Contracts", MC % ("Emit", 2, "FALSE"))
    c.drive("drv-node", ["d06", cases, c.path("t.ndjson"), c.path("db")])
    c.judge("T_Contracts", c.path("t.ndjson"), key=key)
    c.must_reject("T_Contracts", corrupt(c.path("t.ndjson")))
    c.assumptions += ["only transactions that were admitted call the token, header and cell contracts (B03 decides who may)",
                      "nonces and the price of refused calls are judged by D01"]
