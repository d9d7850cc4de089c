import json, os


def run(c):
    c.build()
    r = c.model("DrawTables", c.cfg("DrawTables"))
    rows = [["DR"] + x for x in c.rows(r, "DR")] + [["DS"] + x for x in c.rows(r, "DS")]
    _, _, out = c.harness("c21", "--draws", c.write("draws.ndjson", rows))
    cases = [json.loads(l) for l in open(os.path.join(out, "trace.ndjson"))]
    c.samples += cases[:4]
    c.judge("DrawJudge", os.path.join(c.work, "judge.ndjson"), cases, what="the draws shown are not those the cards have")
    c.exhaustive = True
