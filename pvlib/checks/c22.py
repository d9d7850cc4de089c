import json, os


def run(c):
    c.build()
    c.model("SymmetryModel", c.cfg("SymmetryModel"))
    _, _, out = c.harness("c22")
    pairs = [json.loads(l) for l in open(os.path.join(out, "pairs.ndjson"))]
    c.samples += pairs[:1]
    c.judge("SymmetryJudge", os.path.join(c.work, "judge.ndjson"), pairs, what="renaming the suits or reordering the players changes more than names and order")
