import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS Inv Emit\n"

def key(tr, i, ev):
    if ev is None:
        return "end"
    return "%s:%s%s" % (ev["op"], ev.get("kind", ""), ":panic" if "panic" in ev["out"] else "")

def corrupt(path, n=60):
    """a byte of an encoding, a field of a decoded record, a claim: none of it may pass"""
    bad = []
    for l in open(path):
        for e in json.loads(l)["ev"]:
            m = json.loads(json.dumps(e))
            if "b" in e["out"]:
                m["out"]["b"][-1] ^= 1
            elif "r" in e["out"]:
                f = sorted(k for k in e["out"]["r"] if isinstance(e["out"]["r"][k], list))
                if not f:
                    continue
                m["out"]["r"][f[len(bad) % len(f)]] += [9]
            elif e["op"] in ("same", "differ", "hash"):
                k = list(e["out"])[0]
                m["out"][k] = not m["out"][k]
            bad.append(json.dumps({"id": "x", "ev": [m]}) + "\n")
        if len(bad) > n:
            return bad[:n]
    return bad

def records(c, side):
    build(["drv-protocol"])
    cases, n = c.gen("MC_Records", MC)
    out = {"node": c.path("node.ndjson"), "tools": c.path("tools.ndjson")}
    c.drive("drv-protocol", ["records", cases, out["node"], out["tools"]])
    c.judge("T_Records", out[side], key=key)
    c.must_reject("T_Records", corrupt(out[side]))

def run(c):
    records(c, "node")
    c.assumptions += ["Keccak-256 of the tiny-keccak crate is taken as reference",
                      "every field over boundary values, one field at a time from two bases, and random records"]
