import json, random
from vlib import *

CFG = "INIT Init\nNEXT Next\nCONSTANTS DEPTH = %d\nSMALL = %s\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    if ev["op"] == "round":
        kinds = [e["kind"] for e in tr["ev"][:i] if e["op"] == "sub" and e["r"] == "ok"]
        return "round:" + "+".join(sorted(set(kinds))) + (":silent" if not any(g["heads"] or g["logs"] or g["sync"] for g in ev["got"]) else "")
    return ev["op"] + ":" + str(ev.get("kind", "")) + ":" + str(ev.get("r", ""))

def corrupt(path, n=80):
    rng = random.Random(SEED)
    bad = []
    for l in open(path):
        t = json.loads(l)
        for i, e in enumerate(t["ev"]):
            if e["op"] != "round" or e["late"]:
                continue
            for k, b in enumerate(e["got"]):
                for what in ("heads", "logs", "sync"):
                    if not b[what]:
                        continue
                    m = json.loads(json.dumps(e))
                    w = m["got"][k][what]
                    if rng.random() < .4: w.pop()
                    elif rng.random() < .5: w.append(w[0])
                    elif what == "heads": w[0]["n"] += 1
                    elif what == "logs": w[0][rng.choice(["a", "d", "b", "tx", "ti", "li"])] += 1
                    else: w[0][1] += 1
                    bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [m]}) + "\n")
    return rng.sample(bad, min(n, len(bad)))

def run(c):
    build(["drv-api"])
    c.model_check("MC_Subs", CFG % (8 if THOROUGH else 7, "TRUE") + "INVARIANT Everything\nVIEW View\n")
    cases, n = c.gen("MC_Subs", CFG % (20, "FALSE") + "INVARIANT Emit\n", simulate=900 if THOROUGH else 100, depth=22, workers=1)
    lines = open(cases).read().splitlines()
    quick = 1500 if THOROUGH else 130
    if len(lines) > quick:
        cases = c.path("cases.ndjson")
        open(cases, "w").write("\n".join(random.Random(SEED).sample(lines, quick)) + "\n")
    c.drive("drv-api", ["g03", cases, c.path("t.ndjson"), c.path("db")])
    c.judge("T_Subs", c.path("t.ndjson"), key=key)
    c.must_reject("T_Subs", corrupt(c.path("t.ndjson")))
    c.assumptions += ["jsonrpsee delivers to a client what was sent to its sink and awaited (a stand-in queues it)",
                      "a client that does not read is not modelled", "the clock is moved on by the harness, one round at a time"]
