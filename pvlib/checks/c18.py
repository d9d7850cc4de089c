import json, os


def run(c):
    c.build()
    cfg = c.cfg("CombiningModel")
    if c.thorough:
        cfg = cfg.replace("Tries = 60", "Tries = 1000").replace("Players = 4", "Players = 5")
    c.model("CombiningModel", cfg, extra=("-seed", str(c.seed)))
    _, _, out = c.harness("c18")
    cases = [json.loads(l) for l in open(os.path.join(out, "trace.ndjson"))]
    c.samples += cases[:2]
    c.judge("CombiningJudge", os.path.join(c.work, "judge.ndjson"), cases,
            what="combining ranges does not keep exactly the compatible combinations")
