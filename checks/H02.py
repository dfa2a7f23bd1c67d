import json, random
from vlib import *

CFG = "INIT Init\nNEXT Next\nCONSTANTS DEPTH = %d\nSMALL = %s\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    return ":".join(str(ev.get(k, "")) for k in ("op", "h", "how"))

def corrupt(path, n=80):
    rng = random.Random(SEED)
    bad = []
    for l in open(path):
        t = json.loads(l)
        for i, e in enumerate(t["ev"]):
            if e["op"] == "fill": continue
            m = json.loads(json.dumps(e))
            w = rng.choice(["reg", "banned", "known", "off", "dial", "sent", "count", "kept", "size"])
            if isinstance(m[w], int): m[w] += 1
            elif not m[w]: continue
            elif w == "known": m[w][0][rng.choice(["lc", "lt", "n"])] += 1
            elif w == "reg": m[w][0]["out"] = not m[w][0]["out"]
            else: m[w].pop()
            bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [m]}) + "\n")
    return rng.sample(bad, min(n, len(bad)))

def run(c):
    build(["drv-net"])
    c.model_check("MC_Peers", CFG % (7 if THOROUGH else 5, "TRUE") + "INVARIANTS Sound Placed NotBoth\nPROPERTIES Limits BanOthers\nVIEW View\n")
    cases, n = c.gen("MC_Peers", CFG % (45, "FALSE") + "INVARIANT Emit\n", simulate=6000 if THOROUGH else 600, depth=200, workers=1)
    lines = open(cases).read().splitlines()
    quick = 4000 if THOROUGH else 400
    if len(lines) > quick:
        cases = c.path("cases.ndjson")
        open(cases, "w").write("\n".join(random.Random(SEED).sample(lines, quick)) + "\n")
    c.drive("drv-net", ["h02", cases, c.path("t.ndjson"), c.path("db")])
    c.judge("T_Peers", c.path("t.ndjson"), key=key)
    c.must_reject("T_Peers", corrupt(c.path("t.ndjson")))
    c.assumptions += ["the transport (tentacle) keeps at most one session with a peer and reports every opening and closing (a stand-in does)",
                      "time passes only when the script says so", "eight addresses of seven peers stand for all"]
