import json
from vlib import *

MC = "INIT Init\nNEXT Next\nINVARIANTS Inv Emit\n"

def kind(tr, i, ev):
    # what fails, not which random input showed it
    if ev is None:
        return "end"
    if "panic" in ev["out"]:
        return "panic:%s:%s" % (ev["op"], "empty" if ev.get("b") == [] else "bytes")
    if ev["op"] == "decode":
        return "decode:%s:%s" % ("accepted" if ev["out"]["ok"] else "refused", tr["id"])
    return "%s:%s" % (ev["op"], tr["id"])

def run(c):
    build(["drv-protocol"])
    cases, n = c.gen("MC_TxWire", MC)
    c.drive("drv-protocol", ["e01", cases, c.path("t.ndjson")])
    c.judge("T_TxWire", c.path("t.ndjson"), key=kind)
    lines = [json.loads(l) for l in open(c.path("t.ndjson"))]
    bad = []
    for l in lines[:40]:
        for e in l["ev"]:
            if e["op"] == "encode" and "b" in e["out"]:
                m = json.loads(json.dumps(e)); m["out"]["b"][-1] ^= 1
                bad.append({"id": "x", "ev": [m]})
            if e["op"] == "decode" and e["out"].get("ok"):
                m = json.loads(json.dumps(e)); m["out"]["t"]["v"] ^= 1
                bad.append({"id": "x", "ev": [m]})
                bad.append({"id": "x", "ev": [{"op": "decode", "b": e["b"] + [128], "out": e["out"]}]})
    c.must_reject("T_TxWire", [json.dumps(x) + "\n" for x in bad])
    c.assumptions += ["Keccak-256 and secp256k1 of the k256/tiny-keccak crates are taken as reference",
                      "byte strings up to about 450 bytes; integers at and around every width boundary"]
