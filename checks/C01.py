import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS Same Emit\nCONSTANTS N = %d\nCACHENONE = %s\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    return ev["op"] + (":memory" if tr["cfg"]["memory"] else "")

def corrupt(path):
    bad = []
    for l in open(path):
        t = json.loads(l)
        for i, e in enumerate(t["ev"]):
            m = json.loads(json.dumps(e))
            if isinstance(m["out"], list):
                if not m["out"]: continue
                k = len(m["out"]) // 2
                m["out"][k] = 0 if m["out"][k] else 1
            else:
                m["out"] = 0 if m["out"] else 1
            bad.append(json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [m]}) + "\n")
    return bad[::max(1, len(bad) // 60)]

def run(c):
    build(["drv-node"])
    # remembering that nothing was found would be wrong, and the model says so
    if "is violated" not in c.tlc("MC_Storage", MC % (4, "TRUE"), allow=(0, 12, 13)):
        raise ToolError("MC_Storage does not notice a cache of absent records")
    cases, n = c.gen("MC_Storage", MC % (5 if THOROUGH else 3, "FALSE"))
    c.drive("drv-node", ["c01", cases, c.path("t.ndjson"), c.path("db")])
    c.judge("T_Storage", c.path("t.ndjson"), key=key)
    c.must_reject("T_Storage", corrupt(c.path("t.ndjson")))
    c.assumptions += ["each block number is stored with one content, as the node does", "RocksDB is replaced by an in-memory stand-in with the same interface; its own correctness is taken for granted"]
