import json, os
from ..core import ToolError
from .workers import cfg


def run(c):
    c.build()
    # No choice of groups, orders and moves favours a deal; the model would tell if one did.
    c.model("SamplerModel", cfg(c, "SamplerModel", MaxMoves=5 if c.thorough else 3))
    r = c.tlc("SamplerModel", cfg(c, "SamplerModel", Rule='"tofirst"', Scenarios="{1}"), name="SamplerModel_biased")
    if not r["violated"]:
        raise ToolError("the model of sampling accepts a biased walk")
    _, _, out = c.harness("c14")
    cases = [json.loads(l) for l in open(os.path.join(out, "cases.ndjson"))]
    c.judge("SampleJudge", os.path.join(c.work, "judge.ndjson"), cases, what="sampled deals are not legal, or not drawn alike")
