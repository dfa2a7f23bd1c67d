import json
from vlib import *

MC = "INIT Init\nNEXT Next\nCONSTANT MAXTIP = %d\nINVARIANTS %s\n%s"

def key(tr, i, ev):
    if ev is None:
        return "end"
    return ":".join(str(x) for x in [ev["op"], ev.get("at", {}).get("t", ""), ev.get("r", "")] + ([ev["what"].split()[0]] if ev["op"] == "junk" else []) + ([ev["from"]["t"], ev["to"]["t"]] if ev["op"] == "logs" else []))

def corrupt(path, n=110):
    import random
    rng = random.Random(SEED)
    bad = []
    for l in open(path):
        t = json.loads(l)
        for i, e in enumerate(t["ev"]):
            if e["op"] in ("commit", "junk", "revert", "sendbad"):
                continue
            m = json.loads(json.dumps(e))
            o = e["op"]
            if m["r"] != "ok":
                continue
            if o == "number": m["n"] += 1
            elif o == "block": k = rng.choice(["n", "h", "parent"]); m[k] += 1
            elif o == "count": m["k"] += 1
            elif o in ("tx", "txat"): m["got"][rng.choice(["id", "b", "h", "i"])] += 1
            elif o == "receipt":
                if m["logs"] and rng.random() < .6:
                    if rng.random() < .3: m["logs"].pop()
                    else: m["logs"][-1][rng.choice(["a", "d", "b", "h", "tx", "ti", "li"])] += 1
                else: m[rng.choice(["tx", "b", "h", "i", "st", "new"])] += 1
            elif o == "logs":
                if not m["logs"]: continue
                if rng.random() < .3: m["logs"].append(m["logs"][0])
                elif rng.random() < .4: m["logs"].pop(0)
                else: m["logs"][0][rng.choice(["a", "d", "b", "h", "tx", "ti", "li"])] += 1
            elif o in ("bal", "nonce"): m["got"] = str(int(m["got"]) + 1)
            elif o == "code": m["got"] = "toy" if m["got"] != "toy" else "none"
            elif o in ("slot", "call", "estimate"): m["got"] += 1
            elif o == "proof": m[rng.choice(["nonce", "slot"])] += 1
            elif o == "send": m["r"] = "err"
            bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [m]}) + "\n")
    return rng.sample(bad, min(n, len(bad)))

def run(c):
    build(["drv-api"])
    c.model_check("MC_Queries", MC % (3 if THOROUGH else 2, "RangeIsSum Once Less FailedNothing NoncesCount", "PROPERTY Past\n"))
    cases, n = c.gen("MC_Queries", MC % (1, "Emit", ""))
    c.drive("drv-api", ["g02", cases, c.path("t.ndjson"), c.path("db")])
    c.judge("T_Queries", c.path("t.ndjson"), key=key)
    c.must_reject("T_Queries", corrupt(c.path("t.ndjson")))
    c.assumptions += ["jsonrpsee carries calls and answers unaltered (a stand-in calls the registered methods by name, with its own parameter rules)",
                      "balances are compared with those the executor left (D01 judges these)",
                      "up to seven blocks of up to three transactions; fewer than 10000 logs per query"]
