import json, random
from vlib import *

CFG = "INIT Init\nNEXT Next\nCONSTANTS DEPTH = %d\nRANGE = %d\nSMALL = %s\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    if ev["op"] == "both":
        return "both:" + ev["a"]["r"] + ":" + ev["b"]["r"]
    return ev["op"] + ":" + str(ev.get("r", "")) + ":" + ("blocks" if ev.get("blocks") else "logs" if ev.get("logs") else "")

def corrupt(path, n=100):
    rng = random.Random(SEED)
    bad = []
    for l in open(path):
        t = json.loads(l)
        for i, e in enumerate(t["ev"]):
            m = json.loads(json.dumps(e))
            if e["op"] == "poll" and e["r"] == "ok":
                if e["logs"]:
                    k = rng.randrange(4)
                    if k == 0: m["logs"].pop()
                    elif k == 1: m["logs"].append(m["logs"][-1])
                    elif k == 2 and len(m["logs"]) > 1: m["logs"].reverse()
                    else: m["logs"][0][rng.choice(["a", "d", "b", "tx", "ti", "li"])] += 1
                elif e["blocks"]:
                    if rng.random() < .5: m["blocks"].pop(0)
                    else: m["blocks"].append(m["blocks"][-1])
                else: m["r"] = "panic"
            elif e["op"] in ("newB", "newL"): m["r"] = "err" if m["r"] == "ok" else "ok"
            elif e["op"] == "drop": m["r"] = "panic"
            else: continue
            bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [m]}) + "\n")
    return rng.sample(bad, min(n, len(bad)))

def run(c):
    build(["drv-api"])
    c.model_check("MC_Filters", CFG % (7 if THOROUGH else 6, 1, "TRUE") + "INVARIANTS Told UpToDate Kept\nVIEW View\n")
    cases, n = c.gen("MC_Filters", CFG % (22, 3, "FALSE") + "INVARIANTS Emit\n", simulate=1500 if THOROUGH else 110, depth=64, workers=1)
    # the simulator prints every way to end a walk: a part of them, different with the seed
    lines = open(cases).read().splitlines()
    quick = 2000 if THOROUGH else 140
    if len(lines) > quick:
        cases = c.path("cases.ndjson")
        open(cases, "w").write("\n".join(random.Random(SEED).sample(lines, quick)) + "\n")
    c.drive("drv-api", ["g01", cases, c.path("t.ndjson"), c.path("db")])
    c.judge("T_Filters", c.path("t.ndjson"), key=key)
    c.must_reject("T_Filters", corrupt(c.path("t.ndjson")))
    c.assumptions += ["a filter polled within 40 s is there and one not polled for 61 s is not; in between either (time is moved on by the harness)",
                      "what a log holds and which logs match are those of G02"]
