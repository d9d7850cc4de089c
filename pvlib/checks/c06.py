import json, os


def run(c):
    c.build()
    cfg = c.cfg("CardTextModel")
    if c.thorough:
        cfg = cfg.replace("MaxLen = 7", "MaxLen = 8").replace("MaxCards = 3", "MaxCards = 4")
    c.model("CardTextModel", cfg)
    _, _, out = c.harness("c06")
    cases = [json.loads(l) for l in open(os.path.join(out, "trace.ndjson"))]
    c.samples += [x for x in cases if x["f"] == "flop" and x["r"]][:2]
    c.judge("CardTextJudge", os.path.join(c.work, "judge.ndjson"), cases,
            what="cards read from or written to a text are not those the text stands for")
