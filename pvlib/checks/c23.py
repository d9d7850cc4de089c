import json, os


def run(c):
    c.build()
    cfg = c.cfg("RangeValueModel")
    c.model("RangeValueModel", cfg if not c.thorough else cfg.replace("{0, 1, 4, 6}", "{0, 1, 4, 6, 9}"))
    deck = "{" + ", ".join(map(str, range(52))) + "}"
    sim = (cfg.replace("{0, 1, 4, 6}", deck).replace("MaxHands = 3", "MaxHands = 90").replace("MaxBlocked = 1", "MaxBlocked = 5")
           .replace("MaxSteps = 3", "MaxSteps = 7").replace("Emit = FALSE", "Emit = TRUE").replace("VIEW View", "")
           .replace("INVARIANTS HandsOK WeightsOK OrderOK FirstOK OnceOK Orders Emitted", "INVARIANTS HandsOK WeightsOK OrderOK FirstOK OnceOK Emitted"))
    r = c.model("RangeValueModel", sim, name="RangeValueModel_sim", workers=1,
                extra=("-simulate", f"num={10000 if c.thorough else 1000}", "-depth", "100", "-seed", str(c.seed)))
    hist, places = c.emitted(r, "RV"), c.emitted(r, "RP")
    c.samples += hist[:1]
    _, _, out = c.harness("c23", "--places", c.write("places.ndjson", places), "--histories", c.write("hist.ndjson", hist))
    cases = [json.loads(l) for l in open(os.path.join(out, "cases.ndjson"))]
    c.judge("RangeValueJudge", os.path.join(c.work, "judge.ndjson"), cases, what="a range does not become the list it should")
