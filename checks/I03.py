import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS Unforged Emit\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    if ev.get("alter") == "negflip":
        return "high-s:" + ev["op"]
    return ev["op"] + ":" + ev.get("alter", ev.get("what", "")) + (":panic" if "panic" in ev["out"] else "")

def corrupt(path):
    bad = []
    for l in open(path):
        t = json.loads(l)
        for e in t["ev"]:
            m = json.loads(json.dumps(e))
            o = m["out"]
            if "ok" in o: o["ok"] = not o["ok"]
            elif "who" in o and e["alter"] == "none" and e["m"] == e["cm"]: o["who"] = 0
            elif "who" in o: o["who"] = e["k"]
            else: m["out"] = {"panic": "x"}
            if m != e and e.get("alter") != "negflip":
                bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": [m]}) + "\n")
    return bad[::max(1, len(bad) // 80)]

def run(c):
    build(["drv-protocol"])
    cases, n = c.gen("MC_Keys", MC)
    c.drive("drv-protocol", ["i03", cases, c.path("t.ndjson")])
    c.judge("T_Keys", c.path("t.ndjson"), key=key)
    c.must_reject("T_Keys", corrupt(c.path("t.ndjson")))
    c.assumptions += ["three keys and messages of each scheme per round; alterations are those listed in the specification"]
