"""B01 and B02: the pool's histories are the same, what is looked at differs."""
import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS OnePerSlot Best Fits Fresh PackFits %s\nCONSTANTS N = %d\nEMIT = %s\nOUTBID = %s\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    kind = tr["cfg"]["kind"]
    if kind == "foreign" and ev["op"] == "package":
        # what the chain has already used, by a transaction the pool never had
        now = ([tr["cfg"]["nonces"]] + [e["nonces"] for e in tr["ev"][:i] if e["op"] == "commit"])[-1]
        txs = tr["cfg"]["txs"]
        if any(x <= len(txs) and txs[x - 1]["sys"] == 0 and txs[x - 1]["nonce"] < now[txs[x - 1]["from"] - 1] for x in ev["out"]):
            return "foreign:stale"
    return kind + ":" + ev["op"]

def corrupt(path):
    bad = []
    for l in open(path):
        t = json.loads(l)
        for i, e in enumerate(t["ev"]):
            m = json.loads(json.dumps(e))
            if e["op"] == "package" and e["out"]: m["out"] = m["out"][1:]; m["k"] = max(0, m["k"] - 1)
            elif e["op"] == "package": m["out"] = [1]
            elif e["op"] == "look": m["len"] += 1
            elif e["op"] == "full": m["out"] = e["q"][1:]
            elif e["op"] == "ensure" and len(set(e["q"])) == len(e["q"]) and e["ok"]: m["asked"] = e["asked"] + [77]
            else: continue
            if e["op"] == "package" and e["out"] and len(e["out"]) >= e["limit"] + e["k"] - 1 and e["k"] == 0: m["out"] = e["out"] + [e["out"][0]]
            bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [m]}) + "\n")
    return bad[::max(1, len(bad) // 60)]

def pool(c, drop):
    build(["drv-node"])
    if "is violated" not in c.tlc("MC_Pool", MC % ("", 4, "FALSE", "TRUE"), allow=(0, 12, 13)):
        raise ToolError("MC_Pool does not notice a pool that takes the worse paying transaction")
    c.model_check("MC_Pool", MC % ("", 7 if THOROUGH else 5, "FALSE", "FALSE"))
    cases, n = c.gen("MC_Pool", MC % ("Emit", 5 if THOROUGH else 4, "TRUE", "FALSE"))
    if not THOROUGH:
        some = open(cases).readlines()[::6]
        open(cases, "w").writelines(some)
    c.drive("drv-node", ["b01", cases, c.path("all.ndjson"), c.path("db")])
    with open(c.path("t.ndjson"), "w") as f:
        for l in open(c.path("all.ndjson")):
            t = json.loads(l)
            t["ev"] = [e for e in t["ev"] if e["op"] not in drop]
            f.write(json.dumps(t) + "\n")
    c.judge("T_Pool", c.path("t.ndjson"), key=key)
    c.must_reject("T_Pool", corrupt(c.path("t.ndjson")))
    c.assumptions += ["the chain goes on between two requests to the pool, not during one, except that insertions run at once",
                      "at most 65 waiting transactions of one sender are kept, as the code has it"]
