import json, os

WHAT = {"C10": "a result is not consistent with itself", "C11": "a class result is not that of its hands",
        "C12": "a board or draw result is not that of its hands"}


def judged(c, pid):
    c.build()
    c.model("BigNatModel", c.cfg("BigNatModel"))
    _, _, out = c.harness(pid.lower())
    cases = [json.loads(l) for l in open(os.path.join(out, "trace.ndjson"))]
    c.samples += [json.loads(x["call"]) for x in cases[:2]]
    c.judge("ResultsJudge", os.path.join(c.work, "judge.ndjson"), cases, cfg=f'CONSTANT What = "{pid}"\n', what=WHAT[pid])
