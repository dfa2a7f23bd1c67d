import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS Latest %s\nCONSTANTS LEN = %d\nCLEANFIRST = %s\nCLOCKONLY = %s\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    k = ev["op"]
    if ev.get("out") == 9997:
        k += ":hangs"
    return k

def corrupt(path):
    bad = []
    for l in open(path):
        t = json.loads(l)
        for i, e in enumerate(t["ev"]):
            m = json.loads(json.dumps(e))
            if e["op"] in ("save", "remove", "remove_all", "vote", "vclear"): m["out"] = 0
            elif e["op"] == "load": m["out"] = [77]
            elif e["op"] == "all": m["out"] = e["out"] + [3]
            elif e["op"] == "vload": m["out"] = 77
            elif e["op"] == "numbers": m["out"] = e["out"] + [77]
            else: continue
            bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [m]}) + "\n")
    return bad[::max(1, len(bad) // 80)]

def run(c):
    build(["drv-node"])
    # cleaning before the new record is whole, and trusting the clock, lose the last record
    for a in (("TRUE", "FALSE"), ("FALSE", "TRUE")):
        if "is violated" not in c.tlc("MC_Wal", MC % (("", 4) + a), allow=(0, 12, 13)):
            raise ToolError("MC_Wal does not notice the fault %s" % (a,))
    cases, n = c.gen("MC_Wal", MC % ("Emit", 5 if THOROUGH else 4, "FALSE", "FALSE"))
    if not THOROUGH:
        some = open(cases).readlines()[::3]
        open(cases, "w").writelines(some)
    c.drive("drv-node", ["a06", cases, c.path("t.ndjson"), c.path("dirs")])
    c.judge("T_Wal", c.path("t.ndjson"), key=key)
    c.must_reject("T_Wal", corrupt(c.path("t.ndjson")))
    c.assumptions += ["the process stops, the file system goes on: a power loss that takes back what was written is outside this check",
                      "a record of transactions carries no checksum: only the log's own writing, stopped anywhere, is allowed to cut it short"]
