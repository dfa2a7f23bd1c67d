# shared by the checks A02 to A05: one validator, one specification (Validator), each property with its own behaviours
import json, random
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS Whole Same ProofFits KeysFit NotTwice %s\nCONSTANTS N = %d\nEMIT = %s\nWRONG = \"%s\"\n"
CASES = "INIT Init\nNEXT Next\nCONSTANT FOCUS = \"%s\"\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    x = ev.get("inner", ev)
    k = ev["op"]
    if x is not ev: k += ":" + x["op"]
    if x["op"] == "check": k += ":" + x["alter"] + ("" if x["hash"] == "right" else ":" + x["hash"] + "-hash")
    if x["op"] == "sync": k += ":" + x["bad"]
    return k

def corrupt(path):
    bad = []
    for l in open(path):
        t = json.loads(l)
        for i, e in enumerate(t["ev"]):
            for n in range(8):
                m = json.loads(json.dumps(e))
                now = m["now"]
                if n == 0: now["chain"] = now["chain"][:-1] if now["chain"] else [1]
                elif n == 1: now["proof"] += 2
                elif n == 2: now["serve"][-1] = 9
                elif n == 3: now["keys"] = [1 - now["keys"][0]]
                elif n == 4: now["pool"] = now["pool"] + [29]
                elif n == 5 and e["op"] == "check" and not (e["alter"].startswith("proof") and not now["chain"]): m["ok"] = 1 - m["ok"]
                elif n == 6 and e["op"] in ("commit", "propose"): m["out"]["ok"] = not m["out"]["ok"]
                elif n == 7 and e["op"] == "sync" and e["bad"] not in ("tx_other", "tx_forged"): m["ok"] = not m["ok"]
                else: continue
                if m["op"] == "commit" and m["out"]["ok"] and "next" not in m["out"]: m["out"].update(next=0, set=0)
                if m["op"] == "propose" and m["out"]["ok"] and "txs" not in m["out"]: m["out"].update(txs=[99], prev=True, good=True, fork=False)
                bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [m]}) + "\n")
    return bad[::max(1, len(bad) // 60)]

def up(l):
    return [{"op": "sync", "vs": [1] * l, "at": 0, "bad": "none"}] if l else []

def plans(focus, cases):
    cases = [json.loads(l) for l in open(cases)]
    if focus == "A03":
        groups = {}
        for c in cases:
            groups.setdefault((c["l"], c["v"], c["fork"], c["give"], c["hash"]), []).append(c)
        out = []
        for (l, v, fork, give, h), cs in sorted(groups.items()):
            cs = [c for c in cs if c["alter"] != "none"] + [c for c in cs if c["alter"] == "none"]
            if h == "own": give = 1
            out.append({"fork": fork, "ops": up(l) + ([{"op": "give", "v": v}] if give else []) + ([{"op": "propose"}] if h == "own" else []) +
                [{"op": "check", "v": v, "alter": c["alter"], "hash": h, "peers": 1 - give, "what": ""} for c in cs] +
                [{"op": "propose"}, {"op": "restart"}, {"op": "check", "what": "kept", "peers": 1}, {"op": "commit", "d": 1, "v": v}]})
        return out
    if focus == "A04":
        out = []
        for c in cases:
            ops = up(c["l"]) + ([{"op": "give", "v": 1}] if c["give"] else []) + [{"op": "sync", "vs": [1] * c["k"], "at": c["at"], "bad": c["bad"]}, {"op": "sync", "vs": [1], "at": 0, "bad": "none"}]
            ops += [{"op": "propose"}, {"op": "restart"}, {"op": "propose"}, {"op": "check", "v": 1, "peers": 1}, {"op": "commit", "d": 1, "v": 1}]
            out.append({"fork": 0, "ops": ops})
        return out
    if focus == "A05":
        out = []
        for c in cases:
            inner = {"op": "commit", "d": 1, "v": c["v"]} if c["what"] == "commit" else {"op": "sync", "vs": [c["v"], 1][:int(c["what"][-1])], "at": 0, "bad": "none"}
            ops = up(c["l"]) + [{"op": "check", "v": c["v"], "peers": 1}, {"op": "crash", "inner": inner, "k": "every"}]
            ops += [{"op": "commit", "d": 1, "v": c["v"]}, {"op": "propose"}] if c["then"] == "commit" else [{"op": "sync", "vs": [1, 1], "at": 0, "bad": "none"}, {"op": "restart"}]
            out.append({"fork": 0, "ops": ops})
        return out
    return cases

FAULTS = {"A02": "turn", "A03": "", "A04": "prevproof", "A05": "order"}
def run(c, focus, quick):
    build(["drv-node"])
    for w in [FAULTS[focus]] + (["keys"] if focus == "A04" else []):
        if w and "is violated" not in c.tlc("MC_Validator", MC % ("", 3, "FALSE", w), allow=(0, 12, 13)):
            raise ToolError("MC_Validator does not notice the fault " + w)
    if focus in ("A02", "A05"):
        c.model_check("MC_Validator", MC % ("", 4 if THOROUGH else 3, "FALSE", ""))
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    if focus == "A02":
        cases, n = c.gen("MC_Validator", MC % ("Emit", 3, "TRUE", ""))
        ps = [json.loads(l) for l in open(cases)]
    else:
        cases, n = c.gen("MC_ValidatorCases", CASES % focus)
        ps = plans(focus, cases)
    if not THOROUGH and len(ps) > quick:
        ps = rng.sample(ps, quick)
    with open(c.path("plans.ndjson"), "w") as f:
        f.writelines(json.dumps(p) + "\n" for p in ps)
    c.drive("drv-node", ["a02", focus, c.path("plans.ndjson"), c.path("t.ndjson"), c.path("db")])
    c.judge("T_Validator", c.path("t.ndjson"), key=key)
    c.must_reject("T_Validator", corrupt(c.path("t.ndjson")))
    c.assumptions += ["blocks are proposed and voted for by the driver with the keys of the validators; the node judges, commits and stores them itself",
                      "two epochs of 4 and 3 validators; the change of validators is crossed",
                      "a crash keeps the completed durable writes of the database in their order and loses the later ones"]
