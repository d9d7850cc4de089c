import json, os


def run(c):
    c.build()
    r = c.model("ValidationModel", c.cfg("ValidationModel"))
    rows = c.emitted(r, "VA")
    c.samples += rows[:2]
    _, _, out = c.harness("c17", "--table", c.write("table.ndjson", rows))
    cases = [json.loads(l) for l in open(os.path.join(out, "cases.ndjson"))]
    c.judge("ValidationJudge", os.path.join(c.work, "judge.ndjson"), cases, what="an input is not refused with the first error that applies, or not accepted")
