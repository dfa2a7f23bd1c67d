import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS Total NeverOlder EmitFrom\nPROPERTIES Kept Untouched\n"
MCD = "INIT Init\nNEXT Next\nINVARIANTS Atomic Durable\nCONSTANT SKIP = %d\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    return ev["op"] + ":" + tr["cfg"].get("rec", {}).get("kind", "disk") + (":" + ev["do"] if "do" in ev else "")

def corrupt(path):
    bad = []
    for l in open(path):
        t = json.loads(l)
        for i, e in enumerate(t["ev"]):
            m = json.loads(json.dumps(e))
            o = m["out"]
            if "started" in o:
                if i % 2: o["started"] = not o["started"]
                else: o["left"] = o["left"] + [33]
            elif "lt" in o: o["lt"] = not o["lt"]
            else: o["same"] = False
            bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [m]}) + "\n")
    return bad[::max(1, len(bad) // 80)]

def run(c):
    build(["drv-base"])
    c.model_check("MC_Durable", MCD % 0)
    # the order of the steps matters: without any one of them the model must fail
    for k in (4, 6):
        if "is violated" not in c.tlc("MC_Durable", MCD % k, allow=(0, 12, 13)):
            raise ToolError("MC_Durable does not notice a missing step %d" % k)
    cases, n = c.gen("MC_Version", MC)
    out = c.drive("drv-base", ["i02", cases, c.path("t.ndjson"), c.path("dirs")])
    c.judge("T_Version", c.path("t.ndjson"), key=key)
    c.must_reject("T_Version", corrupt(c.path("t.ndjson")))
    if "strace is not permitted" in out:
        c.assumptions.append("crash points were not explored in this run: strace is not permitted here")
    else:
        c.judge("T_Version", c.path("t.ndjson.crash"), key=key)
        c.judge("T_Durable", c.path("t.ndjson.disk"), key=key)
        # leaving out a sync or writing the file in place must be noticed
        bad = []
        for l in open(c.path("t.ndjson.disk")):
            t = json.loads(l)
            for drop in ("sync", "syncdir", "rename", "write"):
                ev = [e for e in t["ev"] if e.get("do") != drop]
                if len(ev) < len(t["ev"]):
                    bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": ev}) + "\n")
        c.must_reject("T_Durable", bad)
    c.assumptions += ["the file system keeps its names and contents as a POSIX one may: a name or its contents are sure only once synced"]
