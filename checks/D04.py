import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS Agree Grows Starts %s\nPROPERTIES Kept\nCONSTANTS LEN = %d\nMAXN = %d\nFEATURES = {0, 1%s}\nNOOR = %s\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    return ev["op"] + ":" + ev.get("by", tr["cfg"]["kind"])

def corrupt(path):
    bad = []
    for l in open(path):
        t = json.loads(l)
        for i, e in enumerate(t["ev"]):
            ms = []
            def m(f):
                x = json.loads(json.dumps(e)); f(x); ms.append(x)
            if e["op"] == "names":
                m(lambda x: x.update(out=[] if x["out"] else [192]))
                m(lambda x: x.update(outn=x["outn"] + 1))
            else:
                if e["list"]:
                    m(lambda x: x["list"][-1].update(n=x["list"][-1]["n"] + 1) if x["list"][-1]["f"] and set(x["list"][-1]["f"]) - set(sum((y["f"] for y in x["list"][:-1]), [])) else x.update(list=[{"n": 0, "f": [77]}]))
                    m(lambda x: x["list"].append({"n": x["list"][-1]["n"], "f": [99]}))
                if "now" in e:
                    m(lambda x: x.update(now=x["now"] + [98]))
                    m(lambda x: x.update(on=not x["on"]))
            bad += [json.dumps({"id": "x", "cfg": t["cfg"], "ev": t["ev"][:i] + [x]}) + "\n" for x in ms]
    return bad[::max(1, len(bad) // 60)]

def run(c):
    build(["drv-node"])
    if "is violated" not in c.tlc("MC_Hardfork", MC % ("", 2, 2, "", "TRUE"), allow=(0, 12, 13)):
        raise ToolError("MC_Hardfork does not notice a list that forgets features")
    c.model_check("MC_Hardfork", MC % ("", 4 if THOROUGH else 3, 4 if THOROUGH else 3, ", 2", "FALSE"))
    cases, n = c.gen("MC_Hardfork", MC % ("Emit", 4 if THOROUGH else 3, 3, "", "FALSE"))
    c.drive("drv-node", ["d04", cases, c.path("t.ndjson"), c.path("db")])
    c.judge("T_Hardfork", c.path("t.ndjson"), key=key)
    c.must_reject("T_Hardfork", corrupt(c.path("t.ndjson")))
    c.assumptions += ["the first announcement of a chain is the one of its genesis, for block 0",
                      "a block is executed under the features in force when the block before it was finished"]
