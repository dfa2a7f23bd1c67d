import json, random
from vlib import *

CFG = "INIT Init\nNEXT Next\nCONSTANTS DEPTH = %d\nSMALL = %s\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    return ":".join(str(ev.get(k, "")) for k in ("op", "how", "h", "kept"))

def corrupt(path, n=80):
    rng = random.Random(SEED)
    bad = []
    for l in open(path):
        t = json.loads(l)
        for i, e in enumerate(t["ev"]):
            m = json.loads(json.dumps(e))
            if e["op"] in ("reply", "burst", "tick") and e["done"]:
                w = m["done"][0]
                q = rng.randrange(4)
                if q == 0: m["done"].pop(0)
                elif q == 1: m["done"].append(dict(w))
                elif q == 2: w["k"] += 1
                else: w["r"] = "late" if w["r"] != "late" else "err"
            elif e["op"] == "reply" and rng.random() < .2:
                m["done"] = [{"k": 1, "r": "ok", "v": e["v"]}]
            elif e["op"] in ("call", "answer") and rng.random() < .3:
                if not m["out"]: continue
                w = m["out"][0]
                w[rng.choice(["to"] if e["op"] == "call" else ["to", "id"])] += 1
            elif e["op"] == "crowd":
                m[rng.choice(["ids", "right"])] -= 1
            elif e["op"] == "rest":
                m["kept"] = True
            else:
                continue
            bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [m]}) + "\n")
    return rng.sample(bad, min(n, len(bad)))

def run(c):
    build(["drv-net"])
    c.model_check("MC_Rpc", CFG % (8 if THOROUGH else 7, "TRUE") + "INVARIANTS Unique Once Own Bounded\nVIEW View\n")
    cases, n = c.gen("MC_Rpc", CFG % (22, "FALSE") + "INVARIANT Emit\n", simulate=1500 if THOROUGH else 150, depth=24, workers=1)
    lines = open(cases).read().splitlines()
    quick = 3000 if THOROUGH else 250
    if len(lines) > quick:
        cases = c.path("cases.ndjson")
        open(cases, "w").write("\n".join(random.Random(SEED).sample(lines, quick)) + "\n")
    c.drive("drv-net", ["h01", cases, c.path("t.ndjson"), c.path("db")])
    c.judge("T_Rpc", c.path("t.ndjson"), key=key)
    c.must_reject("T_Rpc", corrupt(c.path("t.ndjson")))
    c.assumptions += ["the transport (tentacle) carries frames between the node and its peers unchanged and in order (a stand-in does)",
                      "time passes only when the script says so (the harness moves the clock)"]
