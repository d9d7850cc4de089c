import json, os, re


def run(c):
    c.build()
    r = c.model("RangeForms", c.cfg("RangeForms"))
    forms = c.write("forms.ndjson", c.emitted(r, "RF"))
    cfg = c.cfg("RangeReader")
    if c.thorough:
        cfg = cfg.replace("MaxLen = 5", "MaxLen = 6")
    alphabet = re.search(r"Alphabet = \{([\d, ]+)\}", cfg)[1].replace(" ", "")
    maxlen = re.search(r"MaxLen = (\d+)", cfg)[1]
    r = c.model("RangeReader", cfg)
    texts = c.write("texts.ndjson", c.emitted(r, "RR"))
    _, _, out = c.harness("c05", "--forms", forms, "--texts", texts, "--alphabet", alphabet, "--maxlen", maxlen)
    cases = [json.loads(l) for l in open(os.path.join(out, "trace.ndjson"))]
    c.samples += [x for x in cases if len(x["h"]) in (1, 4)][:2]
    c.judge("RangeJudge", os.path.join(c.work, "judge.ndjson"), cases,
            what="the range read from a text is not the one the text stands for")
