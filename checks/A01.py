import json, random
from vlib import *

MC = "INIT NInit\nNEXT Next\nINVARIANTS Intersect OnlyVoted ZeroIrrelevant NotInForce Emit\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    o = ev["out"]
    if ev["op"] == "combine":
        return "combine"
    return ev["op"] + ":" + ("panic" if "panic" in o else ("accepted" if o["accept"] else "refused") + ":" + ev["t"]["alter"] + ":" + ev["t"]["garble"] + ":" + ev["t"]["set"])

def corrupt(path, n=80):
    bad = []
    for l in open(path):
        t = json.loads(l)
        for i, e in enumerate(t["ev"]):
            m = json.loads(json.dumps(e))
            if e["op"] == "combine":
                k = sorted(m["out"])[len(bad) % 5]
                m["out"][k] = not m["out"][k]
            elif "accept" in m["out"] and not (e["op"] == "votes" and e["t"]["garble"] == "bitmap_empty"):
                m["out"]["accept"] = not m["out"]["accept"]
            else:
                continue
            bad.append(json.dumps({"id": "x", "ev": t["ev"][:i] + [m]}) + "\n")
    return bad[::max(1, len(bad) // n)]

def run(c):
    build(["drv-node"])
    cases, n = c.gen("MC_NodeQuorum", MC)
    lines = open(cases).read().splitlines()
    quick = 900
    if not THOROUGH and len(lines) > quick:
        # always those that a wrong set or a lone tampering decides; of the rest a part that changes with the seed
        rng = random.Random(SEED)
        must = [l for l in lines if '"before"' in l or '"after"' in l or '"garble":"none"' not in l]
        rest = [l for l in lines if l not in set(must)]
        lines = must + rng.sample(rest, min(len(rest), quick - len(must)))
        cases = c.path("cases.ndjson")
        open(cases, "w").write("\n".join(lines) + "\n")
    c.drive("drv-node", ["a01", cases, c.path("t.ndjson"), c.path("db")])
    c.judge("T_NodeQuorum", c.path("t.ndjson"), key=key)
    c.must_reject("T_NodeQuorum", corrupt(c.path("t.ndjson")))
    c.assumptions += ["BLS aggregate signatures are unforgeable and injective in their signers (blst)",
                      "validator sets name each validator once; up to seven validators, weights up to the largest the type holds",
                      "the validators in force are those of the metadata contract, two epochs"]
