from E03 import records

def run(c):
    records(c, "tools")
    c.assumptions += ["the node's own JSON form of a block, proof and proposal is the text form that is read back"]
